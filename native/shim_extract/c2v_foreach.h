/* Force-included for AST extraction only: foreach as a range-for over a snapshot
 * (which is what Qt documents foreach to be). */
#include <QtCore/qglobal.h>
#undef foreach
#undef Q_FOREACH
template <typename T> const T c2v_snapshot(const T &t) { return t; }
#define foreach(variable, container) for (variable : c2v_snapshot(container))
#define Q_FOREACH foreach
