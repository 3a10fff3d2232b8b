/* gives the harness access to private members of jom's classes (declarations only; layout is unaffected) */
#include <QSystemSemaphore>
#include <QtCore>
#include <functional>
#include <sstream>
#include <thread>
#include <mutex>
#include <random>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <condition_variable>
#define private public
#define protected public
