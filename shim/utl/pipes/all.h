#pragma once
#include "utl/pipes/pipes_impl.h"
