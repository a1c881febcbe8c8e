// P30: which messages reach which sink.
#include <mc.h>
#include <string>
#include <thread>
#include <vector>
#include <util.h>
#include <maf/logging/Logger.h>
using namespace maf::logging;
using std::string;
static const LogLevel L[] = {LOG_LEVEL_INFO, LOG_LEVEL_WARN, LOG_LEVEL_ERROR, LOG_LEVEL_FATAL, LOG_LEVEL_DEBUG, LOG_LEVEL_VERBOSE};
static const char *N[] = {"INFO", "WARN", "ERROR", "FATAL", "DEBUG", "VERBOSE"};
static bool to_err(int l) { return l >= 1 && l <= 3; }

// through the function or through the macro
static void write(int l, bool macro, const string &text) {
  if (macro) switch (l) {
    case 0: MAF_LOGGER_INFO(text, 1, 'c'); break;
    case 1: MAF_LOGGER_WARN(text, 1, 'c'); break;
    case 2: MAF_LOGGER_ERROR(text, 1, 'c'); break;
    case 3: MAF_LOGGER_FATAL(text, 1, 'c'); break;
    case 4: MAF_LOGGER_DEBUG(text, 1, 'c'); break;
    case 5: MAF_LOGGER_VERBOSE(text, 1, 'c'); break;
  } else switch (l) {
    case 0: info(text, 1, 'c'); break;
    case 1: warn(text, 1, 'c'); break;
    case 2: error(text, 1, 'c'); break;
    case 3: fatal(text, 1, 'c'); break;
    case 4: debug(text, 1, 'c'); break;
    case 5: verbose(text, 1, 'c'); break;
  }
}
struct Rec { int sink; string text; };

MC_SCENARIO(log_history, {.inproc = true}) {
  static std::vector<Rec> got;   // the sinks stay installed
  got.clear();
  auto sink = [](int n) { return [n](const string &m) { got.push_back({n, m}); }; };
  init(0, sink(0), sink(1));
  int out = 0, err = 1, levels = 0, nsinks = 2;
  string log;
  int n = mc::thorough() ? 5 : 4;
  for (int i = 0; i < n; ++i) {
    int op = mc::choose(6, "op");
    static const int sets[] = {0, LOG_LEVEL_INFO, LOG_LEVEL_FROM_WARN, 0xff, LOG_LEVEL_ERROR | LOG_LEVEL_DEBUG};
    log += " " + std::to_string(op);
    if (op == 0) { levels = sets[mc::choose(5, "levels")]; changeLogLevels(levels); }
    if (op == 1) { int l = L[mc::choose(6, "level")]; enable(l); levels |= l; }
    if (op == 2) { int l = L[mc::choose(6, "level")]; disable(l); levels &= ~l; }
    if (op == 3) { stopLogging(); levels = 0; }
    if (op == 4) {
      int s = mc::choose(4, "sinks");
      levels = sets[mc::choose(3, "levels")];
      LoggingFunctionType o, e;
      if (s & 1) o = sink(out = nsinks++);
      if (s & 2) e = sink(err = nsinks++); else err = out;
      init(levels, o, e);
    }
    if (op == 5) { init(levels = LOG_LEVEL_FROM_ERROR); err = out; }
    log += "(" + std::to_string(levels) + ")";
    for (int l = 0; l < 6; ++l) MC_CHECK(allowed(L[l]) == !!(levels & L[l]), "%s: allowed(%s) is %d", log.c_str(), N[l], allowed(L[l]));
    MC_CHECK(debugAllowed() == allowed(LOG_LEVEL_DEBUG) && infoAllowed() == allowed(LOG_LEVEL_INFO) && warnAllowed() == allowed(LOG_LEVEL_WARN) && errorAllowed() == allowed(LOG_LEVEL_ERROR) &&
             fatalAllowed() == allowed(LOG_LEVEL_FATAL) && verboseAllowed() == allowed(LOG_LEVEL_VERBOSE) && !allowed(LOG_LEVEL_SILENCE), "%s: allowed", log.c_str());
    for (int l = 0; l < 6; ++l)
      for (int macro = 0; macro < 2; ++macro) {
        got.clear();
        string text = i % 2 ? string(300, 'm') : string("m\n%s");
        write(l, macro, text);
        bool on = levels & L[l];
        MC_CHECK(got.size() == (on ? 1u : 0u), "%s: %s written %zu times", log.c_str(), N[l], got.size());
        if (!on) continue;
        int want = to_err(l) ? err : out;
        MC_CHECK(got[0].sink == want, "%s: %s to sink %d, expected %d", log.c_str(), N[l], got[0].sink, want);
        MC_CHECK(got[0].text.find(N[l]) == 0, "%s: %s marked as: %s", log.c_str(), N[l], got[0].text.substr(0, 9).c_str());
        auto at = got[0].text.find(text + "1c");
        if (macro && (levels & LOG_LEVEL_DEBUG)) MC_CHECK(got[0].text.find("[[ logger.cpp:") != string::npos, "%s: %s does not name its file: %s", log.c_str(), N[l], got[0].text.c_str());
        MC_CHECK(at != string::npos && got[0].text.find(text + "1c", at + 1) == string::npos, "%s: text of %s", log.c_str(), N[l]);
      }
  }
}
MC_SCENARIO(log_level_argument, {.inproc = true}) {
  static std::vector<Rec> got;
  got.clear();
  init(0, [](const string &m) { got.push_back({0, m}); }, [](const string &m) { got.push_back({1, m}); });
  int set = mc::choose(64, "levels"), l = mc::choose(6, "level");
  changeLogLevels(set);
  maf::logging::log(L[l], "a", 5, string("b"));
  MC_CHECK(got.size() == (set & L[l] ? 1u : 0u), "%s at %d written %zu times", N[l], set, got.size());
  if (got.size()) MC_CHECK(got[0].text == "a5b" && got[0].sink == to_err(l), "%s: '%s' to %d", N[l], got[0].text.c_str(), got[0].sink);
  logImpl(L[l], "direct");
  MC_CHECK(got.back().text == "direct" && got.back().sink == to_err(l), "logImpl");
}
