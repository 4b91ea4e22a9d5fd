#pragma once
#include <ade/util/zip_range.hpp>
