// linked into the daemon's shared object: lets a suite use small data files
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/types.h>
#include <unistd.h>
#include <time.h>
#include "libzdb.h"
void zmc_set_datasize(size_t size) { zdb_settings_get()->datasize = size; }
