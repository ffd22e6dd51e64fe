#pragma once
#include <yaml-cpp/yaml.h>
#include <tesseract_stub.h>
