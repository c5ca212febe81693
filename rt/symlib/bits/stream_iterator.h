#include "symstream.h"
