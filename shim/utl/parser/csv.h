#pragma once
#include "utl/parser/csv_range.h"
