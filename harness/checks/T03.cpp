// T03: reading configuration values from JSON.
#include <mc/mc.hpp>
#include <json/json.h>
#include <trajopt_common/macros.h>
#include <trajopt/json_marshal.hpp>
#include <climits>
#include <optional>
#include <variant>
using namespace mc;
const CheckInfo mc::info = { "T03", "exploration",
  "every JSON value out of 30 scalars (null, booleans, integers and reals at their limits, texts), objects of up to two members and every list of up to 4 (thorough 5) of 12 elements including lists, and every list of up to 4 lists; "
  "read as bool, int, double, text, fixed-size vector, and lists of bool, int, double, text and 3-vector, directly, as a required, an optional and a missing member, also of a parent that is no object", {} };
namespace
{
// what reading a value as a type must give: nothing known, an error, or a value
template <class T> struct Want { enum { Any, Error, Value } kind = Any; T v{}; };
bool isNumber(const Json::Value& v) { return v.type() == Json::intValue || v.type() == Json::uintValue || v.type() == Json::realValue; }
bool isText(const Json::Value& v) { return v.type() == Json::stringValue; }
bool isNest(const Json::Value& v) { return v.type() == Json::arrayValue || v.type() == Json::objectValue; }

Want<bool> want(const Json::Value& v, bool*)
{
  if (v.type() == Json::booleanValue) return { Want<bool>::Value, v.asBool() };
  if (isText(v) || isNest(v)) return { Want<bool>::Error };
  return {};
}
Want<int> want(const Json::Value& v, int*)
{
  if (v.type() == Json::intValue)
    return v.asLargestInt() >= INT_MIN && v.asLargestInt() <= INT_MAX ? Want<int>{ Want<int>::Value, int(v.asLargestInt()) } : Want<int>{ Want<int>::Error };
  if (v.type() == Json::uintValue)
    return v.asLargestUInt() <= INT_MAX ? Want<int>{ Want<int>::Value, int(v.asLargestUInt()) } : Want<int>{ Want<int>::Error };
  if (isText(v) || isNest(v)) return { Want<int>::Error };
  return {};
}
Want<double> want(const Json::Value& v, double*)
{
  if (v.type() == Json::intValue) return { Want<double>::Value, double(v.asLargestInt()) };
  if (v.type() == Json::uintValue) return { Want<double>::Value, double(v.asLargestUInt()) };
  if (v.type() == Json::realValue) return { Want<double>::Value, v.asDouble() };
  if (isText(v) || isNest(v)) return { Want<double>::Error };
  return {};
}
Want<std::string> want(const Json::Value& v, std::string*)
{
  if (isText(v))
  {
    const char *b, *e;
    v.getString(&b, &e);
    return { Want<std::string>::Value, std::string(b, e) };
  }
  if (isNest(v)) return { Want<std::string>::Error };
  return {};
}
Want<Eigen::Vector3d> want(const Json::Value& v, Eigen::Vector3d*);
template <class T>
Want<std::vector<T>> want(const Json::Value& v, std::vector<T>*)
{
  using W = Want<std::vector<T>>;
  if (v.type() == Json::nullValue) return {};
  if (v.type() != Json::arrayValue) return { W::Error };
  W w;
  w.kind = W::Value;
  bool any = false;
  for (Json::ArrayIndex i = 0; i < v.size(); ++i)
  {
    auto e = want(v[i], static_cast<T*>(nullptr));
    if (e.kind == e.Error) return { W::Error };     // the first element that is not known may fail as well: an error either way
    if (e.kind == e.Any) any = true;
    else w.v.push_back(e.v);
  }
  if (any) return {};
  return w;
}
template <int N>
Want<Eigen::Matrix<double, N, 1>> wantFixed(const Json::Value& v)
{
  using W = Want<Eigen::Matrix<double, N, 1>>;
  auto l = want(v, static_cast<std::vector<double>*>(nullptr));
  if (isNest(v) && v.size() != N) return { W::Error };
  if (isNumber(v) || isText(v) || v.type() == Json::booleanValue || v.type() == Json::nullValue) return { W::Error };
  if (l.kind == l.Error) return { W::Error };
  if (l.kind == l.Any) return {};
  W w;
  w.kind = W::Value;
  for (int i = 0; i < N; ++i) w.v[i] = l.v[size_t(i)];
  return w;
}
Want<Eigen::Vector3d> want(const Json::Value& v, Eigen::Vector3d*) { return wantFixed<3>(v); }
Want<Eigen::Vector4d> want(const Json::Value& v, Eigen::Vector4d*) { return wantFixed<4>(v); }

template <class T> T mark();
template <> bool mark<bool>() { return true; }
template <> int mark<int>() { return 4711; }
template <> double mark<double>() { return -47.25; }
template <> std::string mark<std::string>() { return "untouched"; }
template <> Eigen::Vector3d mark<Eigen::Vector3d>() { return { 9, 8, 7 }; }
template <> Eigen::Vector4d mark<Eigen::Vector4d>() { return { 9, 8, 7, 6 }; }
template <> std::vector<int> mark<std::vector<int>>() { return { 1, 2 }; }
template <> std::vector<double> mark<std::vector<double>>() { return { 1.5 }; }
template <> std::vector<std::string> mark<std::vector<std::string>>() { return { "x" }; }
template <> std::vector<Eigen::Vector3d> mark<std::vector<Eigen::Vector3d>>() { return { { 1, 2, 3 } }; }
template <> std::vector<bool> mark<std::vector<bool>>() { return { true, false, true }; }
template <class T> struct IsList : std::false_type {};
template <class T> struct IsList<std::vector<T>> : std::true_type {};

std::string text(const Json::Value& v)
{
  Json::StreamWriterBuilder b;
  b["indentation"] = "";
  return Json::writeString(b, v);
}
template <class T>
void judge(Ctx& c, const char* how, const char* type, const Json::Value& v, const Want<T>& w, const std::function<void(T&)>& read)
{
  c.transitions();
  T got = mark<T>();
  bool threw = false;
  try { read(got); }
  catch (const std::exception&) { threw = true; }
  auto what = [&] { return str(text(v), " as ", type, " ", how); };
  c.outcome(Hash().s(type).u(threw).u(uint64_t(v.type())).h);
  if (w.kind == w.Value)
    c.checkf(!threw && got == w.v, threw ? "rejected" : "value", what);
  else if (w.kind == w.Error)
  {
    c.checkf(threw, "accepted", what);
    if (!IsList<T>::value)
      c.checkf(got == mark<T>(), "target-changed", what);
  }
  c.traces();
}
template <class T>
void all(Ctx& c, const char* type, const Json::Value& v)
{
  using namespace json_marshal;
  auto w = want(v, static_cast<T*>(nullptr));
  judge<T>(c, "directly", type, v, w, [&](T& r) { fromJson(v, r); });
  Json::Value parent(Json::objectValue);
  parent["a"] = Json::Value(Json::arrayValue);
  parent["name"] = v;
  parent["z"] = 3;
  judge<T>(c, "as required member", type, v, w, [&](T& r) { childFromJson(parent, r, "name"); });
  T df = w.kind == w.Value ? T() : mark<T>();
  judge<T>(c, "as optional member", type, v, w, [&](T& r) { childFromJson(parent, r, "name", df); });
  // the tree is left as it was
  c.checkf(parent["name"] == v && parent.size() == 3, "tree-changed", [&] { return text(parent); });
}
template <class T>
void missing(Ctx& c, const char* type, const Json::Value& parent, bool object)
{
  using namespace json_marshal;
  std::vector<T> dfs = { T(), mark<T>() };
  for (const T df : dfs)
    judge<T>(c, "as missing optional member", type, parent, object ? Want<T>{ Want<T>::Value, df } : Want<T>{}, [&](T& r) { childFromJson(parent, r, "absent", df); });
  T got = mark<T>();
  bool threw = false;
  std::string m;
  try { childFromJson(parent, got, "absent"); }
  catch (const std::exception& e) { threw = true, m = e.what(); }
  c.checkf(threw, "accepted", [&] { return str("missing required member of ", text(parent), " as ", type); });
  c.checkf(got == mark<T>(), "target-changed", [&] { return str("missing required member as ", type); });
  c.checkf(!object || m.find("absent") != std::string::npos, "message", [&] { return str("missing member: ", m); });
}
template <class F> void types(F f)
{
  f.template operator()<bool>("bool");
  f.template operator()<int>("int");
  f.template operator()<double>("double");
  f.template operator()<std::string>("text");
  f.template operator()<Eigen::Vector3d>("3-vector");
  f.template operator()<Eigen::Vector4d>("4-vector");
  f.template operator()<std::vector<int>>("list of int");
  f.template operator()<std::vector<double>>("list of double");
  f.template operator()<std::vector<std::string>>("list of text");
  f.template operator()<std::vector<Eigen::Vector3d>>("list of 3-vector");
  f.template operator()<std::vector<bool>>("list of bool");
}
struct All { Ctx& c; const Json::Value& v; template <class T> void operator()(const char* t) { all<T>(c, t, v); } };
struct Missing { Ctx& c; const Json::Value& v; bool object; template <class T> void operator()(const char* t) { missing<T>(c, t, v, object); } };
Json::Value list(std::initializer_list<Json::Value> l)
{
  Json::Value v(Json::arrayValue);
  for (auto& x : l) v.append(x);
  return v;
}
}  // namespace

void mc::explore(Ctx& c)
{
  std::vector<Json::Value> scalars = { Json::Value(), true, false, 0, 1, -1, 7, INT_MAX, INT_MIN, Json::Int64(INT_MAX) + 1, Json::Int64(INT_MIN) - 1, Json::UInt(5), Json::UInt(UINT_MAX), Json::Int64(1) << 60,
    Json::UInt64(-1), 0.5, -0.0, 2.0, 2.5, -1e300, 1e-320, 1e10, 0.1, "", "abc", "1", "true", "0.5", "[1,2,3]", std::string("nul\0in", 6), "umlaut \xc3\xa4" };
  Json::Value obj(Json::objectValue), obj3(Json::objectValue);
  obj["a"] = 1;
  obj3["x"] = 1, obj3["y"] = 2, obj3["z"] = 3;
  std::vector<Json::Value> objects = { Json::Value(Json::objectValue), obj, obj3 };
  std::vector<Json::Value> elems = { 1, -2, 0.5, 1e300, "t", "", true, Json::Value(), list({}), list({ 1, 2, 3 }), list({ 0.25 }), obj };
  auto test = [&](const std::string& desc, std::function<std::vector<Json::Value>()> vs) {
    c.item([=] { return desc; }, [&c, vs] {
      for (auto& v : vs())
      {
        types(All{ c, v });
        c.state(Hash().s(text(v)).h);
      }
    });
  };
  for (auto& v : scalars) test("scalar " + text(v), [=] { return std::vector<Json::Value>{ v }; });
  for (auto& v : objects) test("object " + text(v), [=] { return std::vector<Json::Value>{ v }; });
  test("empty list", [] { return std::vector<Json::Value>{ list({}) }; });
  int maxlen = c.thorough ? 5 : 4;
  for (size_t f = 0; f < elems.size(); ++f)
    for (size_t g = 0; g <= elems.size(); ++g)
      test(str("lists starting with ", text(elems[f]), g < elems.size() ? ", " + text(elems[g]) : std::string(" only")), [=] {
        std::vector<Json::Value> out;
        if (g == elems.size())
          return std::vector<Json::Value>{ list({ elems[f] }) };
        std::function<void(Json::Value)> rec = [&](Json::Value v) {
          out.push_back(v);
          if (int(v.size()) < maxlen)
            for (auto& e : elems)
            {
              Json::Value n = v;
              n.append(e);
              rec(n);
            }
        };
        rec(list({ elems[f], elems[g] }));
        return out;
      });
  // lists of lists
  std::vector<Json::Value> inner = { list({}), list({ 1 }), list({ 1, 2, 3 }), list({ 0.5, -1, 4 }), list({ list({ 1, 2 }) }), list({ list({}), list({ 3 }) }), list({ "a" }), 5 };
  for (size_t f = 0; f < inner.size(); ++f)
    test(str("lists of lists starting with ", text(inner[f])), [=] {
      std::vector<Json::Value> out;
      std::function<void(Json::Value)> rec = [&](Json::Value v) {
        out.push_back(v);
        if (int(v.size()) < maxlen)
          for (auto& e : inner)
          {
            Json::Value n = v;
            n.append(e);
            rec(n);
          }
      };
      rec(list({ inner[f] }));
      return out;
    });
  Json::Value nul;
  for (auto& v : objects) c.item([=] { return "missing member of " + text(v); }, [&c, v] { types(Missing{ c, v, true }); });
  c.item([=] { return std::string("missing member of nothing"); }, [&c, nul] { types(Missing{ c, nul, true }); });
  for (auto& v : { Json::Value(3), Json::Value("absent"), list({ "absent" }) })
    c.item([=] { return "missing member of " + text(v); }, [&c, v] { types(Missing{ c, v, false }); });
}
