// Force-included in every translation unit: the standard headers that KOGNAC's
// headers (or an older libstdc++) used to bring in transitively.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <climits>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <functional>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <cassert>
using namespace std;  // several KOGNAC headers did this
