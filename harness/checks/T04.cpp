// T04: collision settings read from and written as YAML.
#include <mc/mc.hpp>
#include <trajopt_common/yaml_extensions.h>
#include <trajopt_common/cereal_serialization.h>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/xml.hpp>
#include <sstream>
#include <optional>
#include <set>
using namespace mc;
using trajopt_common::CollisionCoeffData;
using trajopt_common::TrajOptCollisionConfig;
using tesseract::common::LinkNamesPair;
const CheckInfo mc::info = { "T04", "exploration",
  "weights: every assignment of unset or one of 5 weights to 4 pairs of 3 links (names with spaces, colons, digits and quotes) with 4 defaults, written and read back as node, as text and as binary, XML and JSON archives, and as a hand-written document with the names of "
  "each pair in either order; settings: every combination of present, absent and malformed entries of a settings document (two values each), every set of two changed fields written, read back and compared, also as binary, XML and JSON archives; every kind of node in place of a document",
  { "the conversions of tesseract's own types are stand-ins" } };
namespace
{
const std::vector<double> kW{ 0, 1, 20.1, 1.0 / 3, 1e-3 };
using Names = std::array<std::string, 3>;
const std::vector<Names> kNames{ { "base", "arm", "tool" }, { "link 1", "a: b", "10" }, { "true", "[x, y]", "it's" }, { "#9", "~", "l\"q" } };
const std::vector<std::pair<int, int>> kPairs{ { 0, 1 }, { 2, 0 }, { 1, 2 }, { 1, 1 } };
std::string quoted(const std::string& s)
{
  std::string o = "\"";
  for (char ch : s)
    o += ch == '"' || ch == '\\' ? std::string("\\") + ch : std::string(1, ch);
  return o + '"';
}
std::string exact(double v)
{
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}
// the weights as they can be observed
struct Seen
{
  double def;
  std::map<LinkNamesPair, double> pairs;
  std::set<LinkNamesPair> zero;
  bool operator==(const Seen& o) const { return def == o.def && pairs == o.pairs && zero == o.zero; }
};
Seen look(const CollisionCoeffData& d)
{
  Seen s{ d.getDefaultCollisionCoeff(), {}, { d.getPairsWithZeroCoeff().begin(), d.getPairsWithZeroCoeff().end() } };
  for (auto& p : d.getCollisionCoeffPairData())
    s.pairs[p.first] = p.second;
  return s;
}
// written to an archive and read into an object that holds something else
template <class Out, class In, class T>
T archived(const T& v, T into)
{
  std::stringstream s;
  {
    Out o(s);
    o(cereal::make_nvp("value", v));
  }
  In i(s);
  i(cereal::make_nvp("value", into));
  return into;
}
template <class T, class Judge>
void archives(Ctx& c, const T& v, const T& other, Judge judge)
{
  static const char* names[] = { "binary", "xml", "json" };
  for (int k = 0; k < 3; ++k)
  {
    c.transitions();
    try
    {
      judge(k == 0   ? archived<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(v, other) :
            k == 1 ? archived<cereal::XMLOutputArchive, cereal::XMLInputArchive>(v, other) :
                     archived<cereal::JSONOutputArchive, cereal::JSONInputArchive>(v, other), names[k]);
    }
    catch (const std::exception& e)
    {
      c.fail(str("archive-", names[k]).c_str(), e.what());
    }
  }
}
void weights(Ctx& c)
{
  for (size_t n = 0; n < kNames.size(); ++n)
    for (size_t w0 = 0; w0 <= kW.size(); ++w0)
      c.item([=] { return str("weights, names ", n, ", first pair ", w0 ? str(kW[w0 - 1]) : "unset"); }, [&] {
        Dfs dfs(c);
        dfs.run([&] {
          const Names& N = kNames[n];
          std::vector<int> w{ int(w0) };
          for (size_t k = 1; k < kPairs.size(); ++k)
            w.push_back(dfs.choose(int(kW.size()) + 1));
          static const std::optional<double> D[] = { std::nullopt, 1, 0, 2.5 };
          auto def = D[size_t(dfs.choose(4))];
          CollisionCoeffData d;
          Seen want{ 1, {}, {} };
          if (def)
            d.setDefaultCollisionCoeff(*def), want.def = *def;
          std::string text = "{";
          for (size_t k = 0; k < kPairs.size(); ++k)
            if (w[k])
            {
              std::string a = N[size_t(kPairs[k].first)], b = N[size_t(kPairs[k].second)];
              double v = kW[size_t(w[k] - 1)];
              d.setCollisionCoeff(a, b, v);
              auto key = tesseract::common::makeOrderedLinkPair(a, b);
              want.pairs[key] = v;
              if (v == 0)
                want.zero.insert(key);
              if (text.size() > 1)
                text += ", ";
              text += "? [" + quoted(a) + ", " + quoted(b) + "] : " + exact(v);
            }
          text += "}";
          YAML::Node node(d);
          auto judge = [&](const YAML::Node& y, const char* key) {
            c.transitions();
            CollisionCoeffData r;
            try
            {
              r = y.as<CollisionCoeffData>();
            }
            catch (const std::exception& e)
            {
              c.fail(str(key, "-refused").c_str(), e.what());
              return;
            }
            Seen s = look(r);
            c.checkf(s == want, key, [&] { return str("default ", s.def, " for ", want.def, ", ", s.pairs.size(), " pairs for ", want.pairs.size(), ", ", s.zero.size(), " of weight zero for ", want.zero.size()); });
            c.checkf(r == d && !(r != d), str(key, "-differs").c_str(), [] { return std::string("not equal to the original"); });
          };
          judge(node, "weights-node");
          judge(YAML::Load(YAML::Dump(node)), "weights-text");
          judge(YAML::Load((def ? "default_coeff: " + exact(*def) + "\n" : std::string()) + "pair_coeff_data: " + text), "weights-document");
          CollisionCoeffData other(9);
          other.setCollisionCoeff(N[0], N[1], 0);
          other.setCollisionCoeff("y", "z", 0);
          archives(c, d, other, [&](const CollisionCoeffData& r, const char* how) {
            c.checkf(look(r) == want && r == d, "weights-archive", [&] { return str(how, ": default ", look(r).def, " for ", want.def, ", ", look(r).pairs.size(), " pairs for ", want.pairs.size()); });
          });
          Hash h;
          h.d(want.def);
          for (auto& p : want.pairs)
            h.s(p.first.first).s(p.first.second).d(p.second);
          c.state(h);
          c.outcome(Hash().u(want.pairs.size()).u(want.zero.size()));
          c.traces();
        });
      });
}

// ---- the whole settings ----------------------------------------------------------------------------------------------
struct Entry
{
  const char* key;
  const char* text[2];
  const char* bad;
  std::function<void(TrajOptCollisionConfig&, int)> apply;
};
const std::vector<Entry> kEntries{
  { "enabled", { "false", "true" }, "perhaps", [](TrajOptCollisionConfig& s, int v) { s.enabled = v == 1; } },
  { "contact_manager_config", { "{default_margin: 0.02}", "{}" }, "3", [](TrajOptCollisionConfig& s, int v) { if (v == 0) s.contact_manager_config.margin = 0.02; } },
  { "collision_check_config", { "{longest_valid_segment_length: 0.25}", "{type: 2}" }, "[1]", [](TrajOptCollisionConfig& s, int v) { if (v == 0) s.collision_check_config.longest_valid_segment_length = 0.25; else s.collision_check_config.type = tesseract::collision::CollisionEvaluatorType(2); } },
  { "collision_coeff_data", { "{default_coeff: 3, pair_coeff_data: {[b, a]: 0}}", "{pair_coeff_data: {[a, b]: 7, [c, b]: 2}}" }, "{pair_coeff_data: {[a]: 1}}", [](TrajOptCollisionConfig& s, int v) {
      if (v == 0) s.collision_coeff_data.setDefaultCollisionCoeff(3), s.collision_coeff_data.setCollisionCoeff("a", "b", 0);
      else s.collision_coeff_data.setCollisionCoeff("a", "b", 7), s.collision_coeff_data.setCollisionCoeff("b", "c", 2); } },
  { "collision_margin_buffer", { "0.05", "0" }, "wide", [](TrajOptCollisionConfig& s, int v) { s.collision_margin_buffer = v ? 0 : 0.05; } },
  { "max_num_cnt", { "10", "1" }, "2.5", [](TrajOptCollisionConfig& s, int v) { s.max_num_cnt = v ? 1 : 10; } },
  { "scale_margins", { "0.5", "2" }, "{}", [](TrajOptCollisionConfig& s, int v) { s.contact_manager_config.margin *= v ? 2 : 0.5; } },
};
std::string show(const TrajOptCollisionConfig& s)
{
  auto w = look(s.collision_coeff_data);
  return str(s.enabled, " margin ", s.contact_manager_config.margin, " check ", int(s.collision_check_config.type), ' ', s.collision_check_config.longest_valid_segment_length, " weight ", w.def, " (", w.pairs.size(), " pairs) buffer ",
             s.collision_margin_buffer, " contacts ", s.max_num_cnt);
}
bool same(const TrajOptCollisionConfig& a, const TrajOptCollisionConfig& b)
{
  return a.enabled == b.enabled && a.contact_manager_config.margin == b.contact_manager_config.margin && a.collision_check_config.type == b.collision_check_config.type &&
         a.collision_check_config.longest_valid_segment_length == b.collision_check_config.longest_valid_segment_length && look(a.collision_coeff_data) == look(b.collision_coeff_data) &&
         a.collision_margin_buffer == b.collision_margin_buffer && a.max_num_cnt == b.max_num_cnt;
}
void settings(Ctx& c)
{
  for (int first = 0; first < 4; ++first)
    for (bool alias : { false, true })
      c.item([=] { return str("documents, entry \"enabled\" ", first == 0 ? "absent" : first == 3 ? "malformed" : kEntries[0].text[first - 1], alias ? ", buffer by its old name" : ""); }, [&] {
        Dfs dfs(c);
        dfs.run([&] {
          TrajOptCollisionConfig want;
          std::string text;
          bool bad = false;
          for (size_t k = 0; k < kEntries.size(); ++k)
          {
            int v = k ? dfs.choose(4) : first;
            if (v == 0)
              continue;
            const Entry& e = kEntries[k];
            text += str(alias && k == 4 ? "buffer" : e.key, ": ", v == 3 ? e.bad : e.text[v - 1], "\n");
            if (v == 3)
              bad = true;
            else
              e.apply(want, v - 1);
          }
          if (text.empty())
            text = "{}";
          c.transitions();
          TrajOptCollisionConfig got;
          bool refused = false;
          try
          {
            got = YAML::Load(text).as<TrajOptCollisionConfig>();
          }
          catch (const YAML::Exception&)
          {
            refused = true;
          }
          c.checkf(refused == bad, bad ? "malformed-accepted" : "refused", [&] { return text; });
          if (!bad && !refused)
          {
            c.checkf(same(got, want), "settings", [&] { return str(show(got), ", expected ", show(want), " from\n", text); });
            c.checkf(got == want, "settings-differ", [&] { return text; });
            c.state(Hash().s(show(want)));
          }
          c.outcome(Hash().u(bad));
          c.traces();
        });
      });
  // written and read back; two settings are equal exactly if all fields are
  const std::vector<std::function<void(TrajOptCollisionConfig&)>> ch{
    [](TrajOptCollisionConfig&) {}, [](TrajOptCollisionConfig& s) { s.enabled = false; }, [](TrajOptCollisionConfig& s) { s.contact_manager_config.margin = 1.0 / 3; },
    [](TrajOptCollisionConfig& s) { s.collision_check_config.longest_valid_segment_length = 1e-4 / 3; }, [](TrajOptCollisionConfig& s) { s.collision_check_config.type = tesseract::collision::CollisionEvaluatorType(3); },
    [](TrajOptCollisionConfig& s) { s.collision_coeff_data.setDefaultCollisionCoeff(12.3456789012345678); }, [](TrajOptCollisionConfig& s) { s.collision_coeff_data.setCollisionCoeff("x", "a b", 0); },
    [](TrajOptCollisionConfig& s) { s.collision_coeff_data.setCollisionCoeff("a b", "x", 1e-5 / 7); }, [](TrajOptCollisionConfig& s) { s.collision_margin_buffer = 0.1 + 0.2; },
    [](TrajOptCollisionConfig& s) { s.collision_margin_buffer = 0; }, [](TrajOptCollisionConfig& s) { s.max_num_cnt = 40; },
  };
  for (size_t i = 0; i < ch.size(); ++i)
    c.item([=] { return str("written and read back, change ", i); }, [&] {
      std::vector<TrajOptCollisionConfig> all;
      for (auto& g : ch)
      {
        TrajOptCollisionConfig s;
        ch[i](s), g(s);
        YAML::Node n(s);
        for (auto& y : { n, YAML::Load(YAML::Dump(n)) })
        {
          c.transitions();
          try
          {
            auto r = y.as<TrajOptCollisionConfig>();
            c.checkf(same(r, s), "read-back", [&] { return str(show(r), ", expected ", show(s)); });
            c.checkf(r == s && !(r != s), "read-back-differs", [&] { return show(s); });
          }
          catch (const std::exception& e)
          {
            c.fail("read-back-refused", str(e.what(), ": ", show(s)));
          }
        }
        TrajOptCollisionConfig other;
        for (auto& o : ch)
          o(other);
        archives(c, s, other, [&](const TrajOptCollisionConfig& r, const char* how) {
          c.checkf(same(r, s) && r == s, "settings-archive", [&] { return str(how, ": ", show(r), ", expected ", show(s)); });
        });
        all.push_back(s);
        c.state(Hash().s(show(s)));
      }
      for (auto& a : all)
        for (auto& b : all)
          c.checkf((a == b) == same(a, b) && (a != b) != (a == b), "equality", [&] { return str(show(a), " and ", show(b)); });
      c.traces();
    });
}
void nodes(Ctx& c)
{
  c.item([] { return std::string("nodes that are no settings"); }, [&] {
    for (const char* t : { "[]", "[1, 2]", "5", "text", "~", "" })
      for (int k = 0; k < 2; ++k)
      {
        bool refused = false;
        c.transitions();
        try
        {
          if (k)
            YAML::Load(t).as<TrajOptCollisionConfig>();
          else
            YAML::Load(t).as<CollisionCoeffData>();
        }
        catch (const YAML::Exception&)
        {
          refused = true;
        }
        c.checkf(refused, "no-settings", [&] { return str("accepted: '", t, "'"); });
      }
    for (const char* t : { "default_coeff: x", "default_coeff: [1]", "pair_coeff_data: {a: 1}", "pair_coeff_data: {[a, b, c]: 1}", "pair_coeff_data: {[a, b]: x}", "pair_coeff_data: {[a, b]: 1, [c]: 2}", "pair_coeff_data: {[a, b]: }" })
    {
      bool refused = false;
      c.transitions();
      try
      {
        YAML::Load(t).as<CollisionCoeffData>();
      }
      catch (const YAML::Exception&)
      {
        refused = true;
      }
      c.checkf(refused, "malformed-weights", [&] { return str("accepted: ", t); });
    }
    c.traces();
  });
}
}  // namespace
void mc::explore(Ctx& c)
{
  weights(c);
  settings(c);
  nodes(c);
}
