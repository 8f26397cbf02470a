#ifndef KOGNAC_LOGS_H
#define KOGNAC_LOGS_H
// Stand-in for kognac/logs.h: same macros, messages go to stderr.
#include <string>
#include <sstream>
#include <iostream>
#define TRACEL 0
#define DEBUGL 1
#define INFOL 2
#define WARNL 3
#define ERRORL 4
class Logger {
    public:
        static int &level() { static int l = ERRORL + 1; return l; }
        static void setMinLevel(int l) { level() = l; }
        static int getMinLevel() { return level(); }
        static void logToFile(std::string) {}
        struct Line {
            std::ostringstream o;
            ~Line() { o << "\n"; std::cerr << o.str(); }
            template<class T> Line &operator<<(const T &t) { o << t; return *this; }
            Line &operator<<(std::ostream &(*m)(std::ostream &)) { return *this; }
        };
};
#define LOG(l) if ((l) < Logger::getMinLevel()) ; else Logger::Line()
#endif
