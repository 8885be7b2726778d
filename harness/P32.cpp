// P32: the logger: kinds of messages, and what is written where.
// SOURCES: src/Xsmp/Services/XsmpLogger.cpp src-gen/Xsmp/Services/XsmpLoggerGen.cpp
// FLAGS: @ministd/stream.h
// ENTRY p32_kinds quick=3 thorough=4 --preempt=0
// ENTRY p32_unknown --preempt=0
// ENTRY p32_default quick=2 thorough=2 --preempt=0
// ENTRY p32_pattern quick=3 thorough=3 weight=90 --preempt=0
// ENTRY p32_broken_pattern quick=3 thorough=4 --preempt=0
// ENTRY p32_filter quick=2 thorough=3 --preempt=0
// ENTRY p32_config --preempt=0
// ENTRY p32_times --preempt=0
// ENTRY p32_store quick=2 thorough=3 --preempt=0
// ENTRY p32_two_threads --races --preempt=3
// ENTRY p32_three_threads --races tier=thorough --preempt=2
// ENTRY p32_many --races --preempt=2
// ENTRY p32_query_threads --races --preempt=2
#include "hlib.h"
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Smp/Services/ILogger.h>
#include <Xsmp/Model.h>
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpLogger.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <Xsmp/Simulator.h>
#include <atomic>
#include <memory>
#include <string>
#include <thread>
#include <vector>
using ::Xsmp::Services::XsmpLogger;
typedef ::Smp::Services::LogMessageKind Kind;

namespace {
const char *const predefined[5] = {"Information", "Event", "Warning", "Error", "Debug"};
void config(const std::string &text) {
  ministd::files.clear();
  ministd::out.clear();
  ministd::err.clear();
  ministd::fault = nullptr;
  if (!text.empty()) ministd::files.push_back({"XsmpLogger.properties", text, false});
}
const std::string console = "log.rootLogger=a\nlog.appender.a=ConsoleAppender\n";
std::string pattern(const std::string &p) { return console + "log.appender.a.layout=PatternLayout\nlog.appender.a.layout.conversionPattern=" + p + "\n"; }
std::string fileText(const char *n) { auto *f = ministd::find(n); return f ? f->data : std::string("(none)"); }
// deleted as the component it is
struct Logger {
  XsmpLogger *p;
  explicit Logger(XsmpLogger *p) : p(p) {}
  ~Logger() { delete static_cast<::Smp::IComponent *>(p); }
  XsmpLogger *operator->() const { return p; }
};
struct Mem : ::Smp::IStorageReader, ::Smp::IStorageWriter {
  std::string d;
  std::size_t at = 0;
  void Store(void *a, ::Smp::UInt64 n) override { d.append((char *)a, n); }
  void Restore(void *a, ::Smp::UInt64 n) override { sym_check(at + n <= d.size(), "the state vector is long enough"); memcpy(a, d.data() + at, n); at += n; }
  ::Smp::String8 GetStateVectorFileName() const override { return ""; }
  ::Smp::String8 GetStateVectorFilePath() const override { return ""; }
};
}

// Any history of queries: one identifier for each name.
ENTRY(p32_kinds) {
  config("");
  Logger l(new XsmpLogger("l", "", nullptr, nullptr));
  std::vector<std::string> names(predefined, predefined + 5);
  for (unsigned k = 0, n = (unsigned)sym_bound(3); k < n; k++) {
    std::string name;
    const unsigned c = (unsigned)sym_choose("name", 8);
    if (c < 5) name = predefined[c];
    else for (unsigned i = 5; i < c; i++) { char ch = (char)sym_u8("char"); sym_assume(ch != 0); name.push_back(ch); }
    const std::string copy = name;
    Kind got = l->QueryLogMessageKind(name.c_str());
    for (auto &ch : name) ch = '?'; // the caller's text may change afterwards
    int found = -1;
    for (unsigned i = 0; i < names.size(); i++) if (names[i] == copy) found = (int)i;
    if (found >= 0) { sym_check(got == (Kind)found, "a name keeps its identifier"); sym_witness("known"); }
    else {
      for (unsigned i = 0; i < names.size(); i++) sym_check(got != (Kind)i, "a new name has an identifier of its own");
      sym_check(got == (Kind)names.size(), "identifiers are given in order");
      names.push_back(copy);
      sym_witness("new");
    }
  }
  for (unsigned i = 0; i < names.size(); i++) sym_check(l->QueryLogMessageKind(names[i].c_str()) == (Kind)i, "every name keeps its identifier");
}

// Messages of a kind nobody asked for.
ENTRY(p32_unknown) {
  config(pattern("%k;"));
  {
    Logger l(new XsmpLogger("l", "", nullptr, nullptr));
    if (sym_bool("another kind")) l->QueryLogMessageKind("mine");
    const Kind ks[] = {0, 4, 5, 6, -1};
    const unsigned c = (unsigned)sym_choose("kind", 5);
    l->Log(nullptr, "m", ks[c]);
    Kind mine = l->QueryLogMessageKind("mine");
    l->Log(nullptr, sym_bool("no text") ? nullptr : "m", mine);
    sym_check(mine == 5, "unknown kinds do not use up identifiers");
  }
  sym_check(ministd::out.find("mine;") != std::string::npos, "the kind's name is written");
  const bool ok = ministd::out == "Information;mine;" || ministd::out == "Debug;mine;" || ministd::out == "mine;mine;" || (ministd::out.compare(0, 10, "<unknown: ") == 0);
  sym_check(ok, "unknown kinds are written as such");
}

// Without a configuration: every message goes to the console once, in order, with its sender and kind.
ENTRY(p32_default) {
  config(sym_bool("configured") ? "log.rootLogger=a\nlog.appender.a=ConsoleAppender\nlog.appender.a.layout=SimpleLayout\n" : "");
  std::string want;
  const bool simple = !ministd::files.empty();
  ::Xsmp::Simulator sim;
  ::Xsmp::Model m("model", "", &sim, nullptr);
  std::vector<std::string> tails;
  {
    Logger l(new XsmpLogger("l", "", nullptr, nullptr));
    for (unsigned k = 0, n = (unsigned)sym_bound(2); k < n; k++) {
      SymStr msg(2, "message");
      const unsigned kind = (unsigned)sym_choose("kind", 5);
      const bool sender = sym_bool("sender");
      l->Log(sender ? &m : nullptr, msg.p, (Kind)kind);
      const std::string path = sender ? "/model" : "<null>";
      if (simple) tails.push_back("{duration %T 0000000000000000}\t" + path + "\t" + predefined[kind] + "\t" + msg.p + "\n");
      else tails.push_back("}\t0\t" + path + "\t" + predefined[kind] + "\t" + msg.p + "\n");
      for (unsigned i = 0; i < msg.n; i++) msg.p[i] = '?'; // the message may change afterwards
    }
  }
  std::size_t pos = 0;
  for (auto &t : tails) {
    const std::size_t head = simple ? 0 : strlen("{date %F %T 0123456789abcdef");
    sym_check(ministd::out.size() >= pos + head + t.size(), "every message is written");
    if (ministd::out.size() < pos + head + t.size()) return;
    if (!simple) sym_check(ministd::out.compare(pos, 12, "{date %F %T ") == 0, "with the date");
    sym_check(ministd::out.compare(pos + head, t.size(), t) == 0, "with its time, sender, kind and text, in order");
    pos += head + t.size();
  }
  sym_check(pos == ministd::out.size(), "each message is written once");
  sym_check(ministd::err.empty(), "nothing is wrong");
}

namespace {
const char *const parts[] = {"%p", "%k", "%m", "%S", "%S{%H}", "%E{a}", "%M", "%M{b c}", "%t", "%n", "%%", "x", "\\\\", "\\n", "{", "%q"};
const char *const texts[] = {"/model", "Error", "hello", "0", "{duration %H 0000000000000000}", "{date a 0d2354464f158000}", "0", "{duration b c 0000000000000000}", "\t", "\n", "%", "x", "\\", "\n", "{", "%q"};
}
// Every layout pattern made of documented parts.
ENTRY(p32_pattern) {
  std::string p, want;
  for (unsigned k = 0, n = (unsigned)sym_bound(3); k < n; k++) {
    const unsigned c = (unsigned)sym_choose("part", 17);
    if (c == 16) continue;
    sym_assume(!(k > 0 && c == 14 && !p.empty() && (p.back() == 'S' || p.back() == 'M'))); // "{" opens a format there
    p += parts[c];
    want += texts[c];
  }
  config(pattern("|" + p + "|"));
  {
    ::Xsmp::Simulator sim;
    ::Xsmp::Model m("model", "", &sim, nullptr);
    Logger l(new XsmpLogger("l", "", nullptr, nullptr));
    l->Log(&m, "hello", ::Smp::Services::ILogger::LMK_Error);
  }
  const std::size_t at = want.find("{date a ");
  if (at == std::string::npos) sym_check(ministd::out == "|" + want + "|", "the message is written as the pattern says");
  else sym_check(ministd::out.size() == want.size() + 2 && ministd::out.compare(1, at + 8, want, 0, at + 8) == 0, "the message is written as the pattern says");
}

// Patterns that end too early do no harm.
ENTRY(p32_broken_pattern) {
  static const char *const bits[] = {"%", "%d{", "%S{%T", "{", "}", "\\", "a"};
  std::string p;
  for (unsigned k = 0, n = (unsigned)sym_bound(3); k < n; k++) p += bits[sym_choose("bit", 7)];
  config(pattern("%m" + p));
  {
    Logger l(new XsmpLogger("l", "", nullptr, nullptr));
    l->Log(nullptr, "hello");
  }
  sym_check(ministd::out.compare(0, 5, "hello") == 0, "the message is written");
}

// Appenders with levels and paths; messages go to exactly the appenders that accept them.
ENTRY(p32_filter) {
  std::string c = "log.rootLogger=a,b\nlog.appender.a=ConsoleAppender\nlog.appender.b=FileAppender\nlog.appender.b.File=out.txt\n"
                  "log.appender.a.layout.conversionPattern=%k %p %m%n\nlog.appender.b.layout.conversionPattern=%m%n\n";
  const unsigned levels = (unsigned)sym_choose("levels", 4), path = (unsigned)sym_choose("path", 4);
  if (levels) c += std::string("log.appender.a.levels=") + (levels == 1 ? "Error" : levels == 2 ? " Warning ,Error" : "mine") + "\n";
  if (path) c += std::string("log.appender.b.path=") + (path == 1 ? "/one" : path == 2 ? "/o.*" : "/on") + "\n";
  config(c);
  std::string a, b;
  {
    ::Xsmp::Simulator sim;
    ::Xsmp::Model one("one", "", &sim, nullptr), two("two", "", &sim, nullptr);
    Logger l(new XsmpLogger("l", "", nullptr, nullptr));
    const Kind mine = l->QueryLogMessageKind("mine");
    for (unsigned k = 0, n = (unsigned)sym_bound(2); k < n; k++) {
      const Kind kind = (Kind)sym_choose("kind", 6);
      const bool first = sym_bool("first");
      const std::string name = kind == mine ? "mine" : predefined[kind], msg = std::string("m") + (char)('0' + k);
      l->Log(first ? &one : &two, msg.c_str(), kind);
      if (levels == 0 || (levels == 1 && kind == 3) || (levels == 2 && (kind == 2 || kind == 3)) || (levels == 3 && kind == mine)) a += name + (first ? " /one " : " /two ") + msg + "\n";
      if (path == 0 || ((path == 1 || path == 2) && first)) b += msg + "\n";
    }
  }
  sym_check(ministd::out == a, "an appender writes exactly the kinds it is for");
  sym_check(fileText("out.txt") == b, "an appender writes exactly the senders it is for");
  sym_check(ministd::handles == 0, "files are closed");
}

// The configuration file.
ENTRY(p32_config) {
  std::string c;
  const unsigned v = (unsigned)sym_choose("variant", 8);
  bool toConsole = true, toFile = false, problem = false;
  switch (v) {
  case 0: c = "# nothing\n\n   \n"; break;
  case 1: c = "  log.rootLogger \t=  a  \r\n#log.rootLogger=b\nlog.appender.a= ConsoleAppender"; break;
  case 2: c = "log.rootLogger=b\nlog.appender.b=FileAppender\n"; toConsole = false; toFile = true; break;
  case 3: c = "log.rootLogger=a, b\nlog.appender.b=FileAppender\nlog.appender.a=ConsoleAppender\n"; toFile = true; break;
  case 4: c = "log.rootLogger=a\n"; toConsole = false; problem = true; break;
  case 5: c = "log.rootLogger=a\nlog.appender.a=Printer\n"; toConsole = false; problem = true; break;
  case 6: c = "log.rootLogger=a\nlog.appender.a=ConsoleAppender\nlog.appender.a.layout=MyLayout\n"; problem = true; break;
  default: c = "log.rootLogger=a\nwhat is this\nlog.appender.a=ConsoleAppender\nlog.appender.a.path=(\n"; problem = true; break;
  }
  config(c);
  {
    Logger l(new XsmpLogger("l", "", nullptr, nullptr));
    l->Log(nullptr, "hello", 2);
  }
  const bool console = ministd::out.find("Warning\thello\n") != std::string::npos, file = fileText("simulator.log").find("Warning\thello\n") != std::string::npos;
  sym_check(console == toConsole && file == toFile, "messages go where the configuration says");
  sym_check(ministd::err.empty() == !problem, "problems of the configuration are told");
}

// The times of a message are those of the simulator's time keeper when it is logged.
ENTRY(p32_times) {
  const unsigned which = (unsigned)sym_choose("time", 3);
  const std::string part = which == 0 ? "%S" : which == 1 ? "%E" : "%M";
  config(pattern("<" + part + "{%T}>"));
  ::Xsmp::Simulator sim;
  auto *tk = new ::Xsmp::Services::XsmpTimeKeeper("tk", "", &sim, &sim);
  sim.AddService(tk);
  auto *em = new ::Xsmp::Services::XsmpEventManager("em", "", &sim, &sim);
  sim.AddService(em);
  const long epoch = (long)sym_u64("epoch"), mission = (long)sym_u8("mission");
  sym_assume(epoch < (1LL << 62));
  sym_assume(epoch > -(1LL << 62));
  tk->SetEpochTime(epoch);
  tk->SetMissionTime(mission);
  {
    Logger l(new XsmpLogger("l", "", nullptr, &sim));
    l->Log(&sim, "hello");
    tk->SetEpochTime(7);
    tk->SetMissionTime(7);
  }
  std::string want = "<{";
  const long value = which == 0 ? 0 : which == 1 ? epoch : mission;
  want += which == 1 ? "date %T " : "duration %T ";
  ministd::put64(want, (std::uint64_t)(which == 1 ? value + 946728000LL * 1000000000LL : value), 16);
  want += "}>";
  sym_check(ministd::out == want, "the time is the one when the message was logged");
}

// Names of kinds are part of the state.
ENTRY(p32_store) {
  config("");
  ::Xsmp::Simulator sim;
  Mem mem;
  std::vector<std::string> names(predefined, predefined + 5);
  {
    Logger l(new XsmpLogger("l", "", nullptr, &sim));
    for (unsigned k = 0, n = (unsigned)sym_choose("kinds", sym_bound(2) + 1); k < n; k++) {
      std::string name = std::string("k") + (char)('0' + k);
      l->QueryLogMessageKind(name.c_str());
      names.push_back(name);
    }
    l->Store(&mem);
    for (unsigned i = 0; i < names.size(); i++) sym_check(l->QueryLogMessageKind(names[i].c_str()) == (Kind)i, "storing changes nothing");
  }
  Logger l(new XsmpLogger("l", "", nullptr, &sim));
  if (sym_bool("other kinds before")) { l->QueryLogMessageKind("other"); l->QueryLogMessageKind("k1"); l->QueryLogMessageKind("k0"); }
  l->Restore(&mem);
  sym_check(mem.at == mem.d.size(), "the whole state is read");
  for (unsigned i = 0; i < names.size(); i++) sym_check(l->QueryLogMessageKind(names[i].c_str()) == (Kind)i, "identifiers are those of the stored state");
  sym_check(l->QueryLogMessageKind("another") == (Kind)names.size(), "new names come after");
}

namespace {
void count(const char *const *msgs, unsigned n) {
  for (unsigned i = 0; i < n; i++) {
    const std::string m = std::string(msgs[i]) + ";";
    const auto p = ministd::out.find(m);
    sym_check(p != std::string::npos, "no message is lost");
    sym_check(p == std::string::npos || ministd::out.find(m, p + 1) == std::string::npos, "no message is written twice");
  }
}
}
// Messages of several threads: all of them, each thread's in order, and the service always stops.
ENTRY(p32_two_threads) {
  config(pattern("%m;"));
  {
    Logger l(new XsmpLogger("l", "", nullptr, nullptr));
    std::thread t([&] { l->Log(nullptr, "t1"); });
    l->Log(nullptr, "m1");
    l->Log(nullptr, "m2");
    t.join();
  }
  static const char *const msgs[] = {"m1", "m2", "t1"};
  count(msgs, 3);
  sym_check(ministd::out.size() == 9 && ministd::out.find("m1;") < ministd::out.find("m2;"), "messages of a thread keep their order");
}
ENTRY(p32_three_threads) {
  config(pattern("%m;"));
  {
    Logger l(new XsmpLogger("l", "", nullptr, nullptr));
    std::thread t([&] { l->Log(nullptr, "t1"); l->Log(nullptr, "t2"); });
    std::thread u([&] { l->Log(nullptr, "u1"); });
    l->Log(nullptr, "m1");
    t.join();
    u.join();
  }
  static const char *const msgs[] = {"m1", "t1", "t2", "u1"};
  count(msgs, 4);
  sym_check(ministd::out.size() == 12 && ministd::out.find("t1;") < ministd::out.find("t2;"), "messages of a thread keep their order");
}
// More messages than one block of the queue holds.
ENTRY(p32_many) {
  config(pattern("%m;"));
  {
    Logger l(new XsmpLogger("l", "", nullptr, nullptr));
    for (char c = '0'; c < '6'; c++) { const char m[] = {c, 0}; l->Log(nullptr, m); }
  }
  sym_check(ministd::out == "0;1;2;3;4;5;", "every message is written once, in order");
}
// Queries of several threads agree.
ENTRY(p32_query_threads) {
  config(pattern("%k;"));
  Kind a, b, c, d;
  const bool same = sym_bool("same name");
  {
    Logger l(new XsmpLogger("l", "", nullptr, nullptr));
    std::thread t([&] { a = l->QueryLogMessageKind(same ? "x" : "y"); l->Log(nullptr, "t", a); c = l->QueryLogMessageKind("x"); });
    b = l->QueryLogMessageKind("x");
    l->Log(nullptr, "m", b);
    d = l->QueryLogMessageKind(same ? "x" : "y");
    t.join();
    sym_check(a == l->QueryLogMessageKind(same ? "x" : "y") && b == l->QueryLogMessageKind("x"), "every thread gets the name's identifier");
    sym_check(l->QueryLogMessageKind("new") == (Kind)(same ? 6 : 7), "no identifier is given twice or lost");
  }
  sym_check(b == c && a == d && (a == b) == same, "every thread gets the name's identifier");
  sym_check(ministd::out == (same ? "x;x;" : "x;y;") || ministd::out == (same ? "x;x;" : "y;x;"), "messages have their kinds");
}
