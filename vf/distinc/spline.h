#include "embedDB.h"
