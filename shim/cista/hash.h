#pragma once
#include "cista/base.h"
