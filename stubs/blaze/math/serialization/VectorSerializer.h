#pragma once
#include <blaze/blaze_stub.h>
