#include "st_stream.h"
#include "common_file.c"
