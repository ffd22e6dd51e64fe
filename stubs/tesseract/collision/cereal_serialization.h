// The serialisation of tesseract's own collision types, as far as trajopt's refers to it.
#pragma once
#include <cereal/cereal.hpp>
#include <cereal/types/string.hpp>
#include <tesseract_stub.h>
namespace tesseract::collision
{
template <class Archive>
void serialize(Archive& ar, ContactManagerConfig& c)
{
  ar(cereal::make_nvp("margin", c.margin));
}
template <class Archive>
void serialize(Archive& ar, CollisionCheckConfig& c)
{
  ar(cereal::make_nvp("type", c.type), cereal::make_nvp("longest_valid_segment_length", c.longest_valid_segment_length));
}
}  // namespace tesseract::collision
