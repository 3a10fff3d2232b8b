/* a makefile text parsed by the real preprocessor and parser */
#ifndef WORLD_H
#define WORLD_H
#include "harness.h"
#include "options.h"
#include "macrotable.h"
#include "preprocessor.h"
#include "makefile.h"
#include "parser.h"
#include "exception.h"
#include "helperfunctions.h"
struct World {
    NMakeFile::Options &opt; NMakeFile::MacroTable &mt; NMakeFile::Preprocessor pp; NMakeFile::Makefile *mk = 0; NMakeFile::Parser parser;
    QString error; bool failed = false;
    QString path;
    World(const QString &dir = QString()) : opt(*new NMakeFile::Options), mt(*new NMakeFile::MacroTable) { path = (dir.isEmpty() ? scratchDir() : dir) + QLatin1String("/Makefile"); }
    ~World() { if (mk) { qDeleteAll(mk->m_targets); delete mk; } else { delete &opt; delete &mt; } }
    bool parse(const QByteArray &text, const QStringList &targets = QStringList())
    {
        writeFile(path, text);
        return parseFile(targets);
    }
    bool parseFile(const QStringList &targets = QStringList())
    {
        mk = new NMakeFile::Makefile(path);
        mk->setOptions(&opt); mk->setMacroTable(&mt); pp.setMacroTable(&mt);
        try { pp.openFile(path); parser.apply(&pp, mk, targets); }
        catch (NMakeFile::Exception &e) { failed = true; error = e.message(); }
        return !failed;
    }
};
#endif
