#pragma once
#include "grpc_shim.h"
