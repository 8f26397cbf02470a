#ifndef KOGNAC_CONSTS_H
#define KOGNAC_CONSTS_H
#include <string>
#include <cstdint>
#define DIR_SEP std::string("/")
#define CDIR_SEP '/'
#ifndef MAX_TERM_SIZE
#define MAX_TERM_SIZE 65536
#endif
#define DICT_HEURISTICS "heuristics"
#define DICT_HASH "hash"
#define DICT_SMART "smart"
#define PARSE_COUNTMIN 0
#define PARSE_MGCS 1
#define PARSE_COUNTMIN_MGCS 2
#define PARSE_SAMPLE 3
#define IDX_SPO 0
#define IDX_OPS 1
#define IDX_POS 2
#define IDX_SOP 3
#define IDX_OSP 4
#define IDX_PSO 5
typedef int64_t nTerm;
typedef signed char tTerm;
#endif
