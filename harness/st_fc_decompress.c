#include "st_stream.h"
#include "common_file_decompress.c"
