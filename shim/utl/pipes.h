#pragma once
#include "utl/pipes/all.h"
#include "utl/pipes/iterable.h"
#include "utl/pipes/remove_if.h"
#include "utl/pipes/count.h"
#include "utl/pipes/for_each.h"
#include "utl/pipes/sum.h"
#include "utl/pipes/take_while.h"
#include "utl/pipes/transform.h"
