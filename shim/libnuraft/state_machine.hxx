#pragma once
#include "nuraft.hxx"
