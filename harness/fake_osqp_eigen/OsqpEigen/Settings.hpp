#include "OsqpEigen.h"
