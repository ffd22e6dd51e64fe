#pragma once
#include <tesseract_stub.h>
