#pragma once
#include <symstream.h>
