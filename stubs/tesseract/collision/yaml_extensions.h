// The conversions of tesseract's own collision types, as far as trajopt's refer to them.
#pragma once
#include <yaml-cpp/yaml.h>
#include <tesseract_stub.h>
namespace YAML
{
template <>
struct convert<tesseract::collision::ContactManagerConfig>
{
  static Node encode(const tesseract::collision::ContactManagerConfig& c)
  {
    Node n;
    n["default_margin"] = c.margin;
    return n;
  }
  static bool decode(const Node& n, tesseract::collision::ContactManagerConfig& c)
  {
    if (!n.IsMap())
      return false;
    if (n["default_margin"])
      c.margin = n["default_margin"].as<double>();
    return true;
  }
};
template <>
struct convert<tesseract::collision::CollisionCheckConfig>
{
  static Node encode(const tesseract::collision::CollisionCheckConfig& c)
  {
    Node n;
    n["type"] = int(c.type);
    n["longest_valid_segment_length"] = c.longest_valid_segment_length;
    return n;
  }
  static bool decode(const Node& n, tesseract::collision::CollisionCheckConfig& c)
  {
    if (!n.IsMap())
      return false;
    if (n["type"])
      c.type = tesseract::collision::CollisionEvaluatorType(n["type"].as<int>());
    if (n["longest_valid_segment_length"])
      c.longest_valid_segment_length = n["longest_valid_segment_length"].as<double>();
    return true;
  }
};
}  // namespace YAML
