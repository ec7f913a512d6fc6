#pragma once
#include "cista/containers/array.h"
#include "cista/containers/bitset.h"
#include "cista/containers/bitvec.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/hash_map.h"
#include "cista/containers/hash_set.h"
#include "cista/containers/optional.h"
#include "cista/containers/ptr.h"
#include "cista/containers/string.h"
#include "cista/containers/tuple.h"
#include "cista/containers/unique_ptr.h"
#include "cista/containers/variant.h"
#include "cista/containers/vector.h"
