#include <kognac/filemerger.h>
