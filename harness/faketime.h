// the clock of the checks that are about expiry; included by exactly one file of a program
#pragma once
#include <time.h>
#include <unistd.h>
extern "C" {
#include "handlebars_cache.h"
#include "handlebars_cache_private.h"
}
static long g_now = 1700000000;
extern "C" time_t time(time_t *t) noexcept { if (t) *t = g_now; return g_now; }
extern "C" int usleep(useconds_t) { return 0; }
