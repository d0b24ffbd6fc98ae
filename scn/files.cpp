// C16 file log output, C17 rotation and retention, C18 zipFile
#include "common.h"
#include <zlib.h>
#include <time.h>
#include <icl_core/os_fs.h>
#include <icl_core_config/Config.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
using namespace scn;
namespace icl = icl_core::logging;
DECLARE_LOG_STREAM(SimF)
REGISTER_LOG_STREAM(SimF)
namespace {
void cfg(const std::string& k, const std::string& v) { icl_core::config::setValue<icl_core::String>("/IclCore/Logging/" + k, v); }
// What can be decompressed of a file of gzip members; complete is false if something is missing or wrong.
std::string inflate_all(const std::string& in, bool* complete)
{
  std::string out; size_t at = 0;
  *complete = true;
  while (at < in.size())
  {
    z_stream z; memset(&z, 0, sizeof z);
    inflateInit2(&z, 15 + 16);
    z.next_in = (Bytef*)in.data() + at; z.avail_in = (uInt)(in.size() - at);
    int r; char buf[4096];
    do
    {
      z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
      r = inflate(&z, Z_SYNC_FLUSH);
      out.append(buf, sizeof buf - z.avail_out);
    } while (r == Z_OK && (z.avail_in || z.avail_out == 0));
    size_t used = in.size() - at - z.avail_in;
    inflateEnd(&z);
    at += used;
    if (r != Z_STREAM_END) { *complete = false; break; }
  }
  return out;
}
std::string deflate_gz(const std::string& s)
{
  z_stream z; memset(&z, 0, sizeof z);
  deflateInit2(&z, 6, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
  std::string out(compressBound(s.size()) + 64, 0);
  z.next_in = (Bytef*)s.data(); z.avail_in = (uInt)s.size(); z.next_out = (Bytef*)&out[0]; z.avail_out = (uInt)out.size();
  deflate(&z, Z_FINISH);
  out.resize(out.size() - z.avail_out);
  deflateEnd(&z);
  return out;
}
const char* const BANNER = "-------------FILE (RE-)OPENED------------------";
std::vector<std::string> lines_of(const std::string& data, std::string* rest = 0)
{
  std::vector<std::string> v; size_t i = 0;
  for (;;)
  {
    size_t j = data.find('\n', i);
    if (j == std::string::npos) break;
    std::string l = data.substr(i, j - i);
    if (!l.empty() && l != BANNER) v.push_back(l);
    i = j + 1;
  }
  if (rest) *rest = data.substr(i); else if (i < data.size()) v.push_back(data.substr(i));
  return v;
}
struct Line { std::string text; uint64_t from, to; ns_t m0, m1; std::set<int64_t> days; int archive; };
std::string text_of(int id, int len)
{
  std::string s = "line" + num(id) + ":";
  while ((int)s.size() < len) s += (char)('a' + (id * 5 + (int)s.size()) % 26);
  return s + "$";
}
const ns_t GRACE = 15 * SEC;
}

// ------------------------------------------------------------------ C16
// cfg: kind (0 plain, 1 plain without flush, 2 zip, 3 zip without flush, 4 quick debug), threads, fault, rate, size of the existing content, EINTR, harmless write faults, cycles, operation that heals, with Rotate (all on one day)
// fault: 0 none, 1 open fails, 2 write fails, 3 ENOSPC, 4 full disk, 5 crash, 6 the path fails
// op: thread, length, pause
static void gen_file(Rng& r, Plan& p)
{
  int kind = (int)r.below(5);
  int fault = kind == 0 || kind == 4 ? (int)r.below(7) : r.chance(1, 3) ? 5 : 0;
  int nt = (int)r.range(1, 3), n = (int)r.range(1, 14);
  static const int64_t sizes[] = { 0, 0, 1, 40, 5000 };
  p.cfg = { kind, nt, fault, fault == 5 ? (r.chance(1, 2) ? r.range(1, 60) : r.range(1, 500)) : fault == 4 ? r.range(0, 3000) : r.range(50, 800), sizes[r.below(5)], r.chance(1, 3) ? r.range(20, 300) : 0,
            r.chance(1, 3) ? r.range(50, 500) : 0, fault || kind == 4 ? 1 : r.range(1, 2), r.range(0, n), (int64_t)(kind < 4 && (fault == 0 || fault == 5) && r.chance(1, 3)) };
  static const int64_t pauses[] = { 0, 0, 0, 100, MS, 40 * MS, 2 * SEC, 20 * SEC };
  static const int64_t lens[] = { 8, 8, 20, 20, 60, 300, 1000, 2000 };
  for (int i = 0; i < n; ++i) p.ops.push_back({ (int64_t)r.below(nt), lens[r.below(8)], pauses[r.below(8)] });
}
static void run_file(const Plan& p)
{
  set_real(EPOCH0);
  int kind = (int)p.c(0) % 5, nt = (int)p.c(1, 1), fault_kind = (int)p.c(2);
  bool zip = kind == 2 || kind == 3, flush = kind == 0 || kind == 2 || kind == 4;
  const std::string path = "/simfs/log/app.log";
  fs::mkdir("/simfs/log");
  fs::fault_paths("/simfs/log");
  if (p.c(5)) set_rate(FT_EINTR_SEM, (int)p.c(5), 60);
  if (p.c(6) && !zip) { set_rate(FT_SHORT_WRITE, (int)p.c(6), 40); set_rate(FT_EINTR_WRITE, (int)p.c(6), 40); }
  std::string old;
  if (p.c(4))
  {
    for (int i = 0; (int64_t)old.size() < p.c(4); ++i) old += "earlier " + num(i) + "\n";
    if (p.c(4) == 40) old.resize(old.size() - 1);      // without a newline at the end
    fs::put(path, zip ? deflate_gz(old) : old);
  }
  const std::string before = fs::get(path);
  static std::vector<Line*> lines;
  bool healthy = true; uint64_t healed_at = 0; ns_t now_crash = 0;
  // checks the content of the file; must: which lines have to be there
  auto check = [&](std::function<bool(const Line&)> must, int64_t errors, bool crashed) {
    std::string data = fs::get(path);
    SIM_CHECK(data.compare(0, before.size(), before) == 0, "damaged", "the earlier content of the log file was changed");
    bool complete = true;
    std::string plain = zip ? inflate_all(data, &complete) : data;
    if (!crashed && zip) SIM_CHECK(complete, "damaged", "the zipped log file cannot be decompressed");
    if (zip) SIM_CHECK(plain.compare(0, old.size(), old) == 0, "damaged", "the earlier content of the zipped log file was changed");
    std::string rest;
    std::vector<std::string> got = lines_of(plain.substr(old.size()), &rest);
    int64_t unknown = 0, missing = 0;
    std::vector<int> pos(lines.size(), -1);
    std::map<std::string, int> index;
    for (size_t k = 0; k < lines.size(); ++k) index[lines[k]->text] = (int)k;
    for (size_t i = 0; i < got.size(); ++i)
    {
      if (kind == 4 && got[i].rfind("line") != std::string::npos) got[i] = got[i].substr(got[i].rfind("line"));    // behind the default format
      std::map<std::string, int>::iterator it = index.find(got[i]);
      if (it == index.end()) { ++unknown; continue; }
      SIM_CHECK(pos[it->second] < 0, "duplicate", "line '%.16s' is in the log file twice", got[i].c_str());
      pos[it->second] = (int)i;
    }
    for (size_t k = 0; k < lines.size(); ++k)
    {
      if (pos[k] >= 0) continue;
      SIM_CHECK(!must(*lines[k]), "lost", "line '%.16s' is not in the log file", lines[k]->text.c_str());
      ++missing;
    }
    if (!crashed)
    {
      SIM_CHECK(unknown <= errors, "garbage", "%ld broken lines in the log file although only %ld file operations failed", (long)unknown, (long)errors);
      SIM_CHECK(missing <= errors, "lost", "%ld of %zu lines are not in the log file although only %ld file operations failed", (long)missing, lines.size(), (long)errors);
    }
    else if (!errors) SIM_CHECK(unknown == 0, "garbage", "a line in the log file is none that was logged");
    for (size_t a = 0; a < lines.size(); ++a)
      for (size_t b = 0; b < lines.size(); ++b)
        if (pos[a] >= 0 && pos[b] >= 0 && lines[a]->to && lines[a]->to < lines[b]->from) SIM_CHECK(pos[a] < pos[b], "order", "a line logged before another one is behind it in the log file");
  };
  auto errors = []() { int64_t n = 0; for (size_t i = 0; i < fs::log.size(); ++i) n += fs::log[i].ret < 0 && fs::log[i].path.find("/simfs/log") == 0; return n; };
  on_crash([&]() {
    now_crash = mono();
    check([&](const Line& l) { return flush && l.to && now_crash - l.m1 > GRACE; }, 0, true);
    probe("crashed");
  });
  const char* argv[] = { "sim", "-qd", path.c_str(), 0 };
  switch (fault_kind)
  {
    case 1: set_rate(FT_OPEN_ERR, (int)p.c(3), 8); break;
    case 2: set_rate(FT_WRITE_ERR, (int)p.c(3), 8); break;
    case 3: set_rate(FT_ENOSPC, (int)p.c(3), 8); break;
    case 4: fs::set_capacity(p.c(3)); break;
    case 5: crash_after_calls(p.c(3)); break;
    case 6: fs::fail_path("/simfs/log", p.c(3) % 2 ? EACCES : ENOENT); break;
  }
  healthy = fault_kind == 0 || fault_kind == 5;
  for (int cyc = 0; cyc < (int)p.c(7, 1); ++cyc)
  {
    if (kind != 4)
    {
      cfg("OutputStream0/OutputStreamName", "File"); cfg("OutputStream0/Name", "TheFile"); cfg("OutputStream0/FileName", path);
      cfg("OutputStream0/Format", "~E"); cfg("OutputStream0/LogLevel", "Trace");
      if (!flush) cfg("OutputStream0/Flush", "false"); else if (p.c(4) % 2) cfg("OutputStream0/Flush", "true");
      if (zip) cfg("OutputStream0/Zip", "true");
      if (p.c(9)) cfg("OutputStream0/Rotate", "true");
      icl::initialize();
    }
    else { int argc = 3; const char* a[] = { argv[0], argv[1], argv[2], 0 }; icl::initialize(argc, const_cast<char**>(a)); }
    std::vector<int> ths;
    for (int t = 0; t < nt; ++t)
      ths.push_back(spawn("logger", [&, t, cyc]() {
        for (size_t i = 0; i < p.ops.size(); ++i)
        {
          const std::vector<int64_t>& o = p.ops[i];
          if (arg(o, 0) != t) continue;
          if (arg(o, 2)) sleep_ns(arg(o, 2));
          if (!healthy && (int64_t)i >= p.c(8))
          {
            ATOMIC if (!healthy) { faults_off(); fs::set_capacity(-1); fs::fail_path("", 0); healthy = true; healed_at = seq(); probe("healed"); }
          }
          Line* l = new Line; l->to = l->from = 0; l->m0 = l->m1 = 0; l->text = text_of((int)i + 100 * cyc, (int)arg(o, 1)); l->archive = 0;
          ATOMIC lines.push_back(l);
          l->from = seq(); l->m0 = mono();
          if (kind == 4) { icl::LogStream& q = icl_core::logging::QuickDebug::instance(); SLOGGING_LOG(q, icl::eLL_TRACE, l->text << icl::endl); }
          else { icl::LogStream& q = SimF::instance(); SLOGGING_LOG(q, icl::eLL_WARNING, l->text << icl::endl); }
          l->m1 = mono(); l->to = seq();
        }
      }));
    for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
    if (flush && p.c(6) % 2 == 0 && fault_kind == 0)
    {
      sleep_ns(GRACE);
      ATOMIC check([](const Line&) { return true; }, 0, !zip ? false : true);
      probe("checked_live");
    }
    icl::shutdown();
    if (fault_kind != 5)
    {
      int64_t n = errors();
      check([&](const Line& l) { return fault_kind == 0 || (healed_at && l.from > healed_at); }, n, false);
    }
    else check([](const Line&) { return true; }, 0, false);
    SIM_CHECK(fs::open_fds() == 0, "fd-leak", "a file is still open after the shutdown");
  }
}
SIM_SCENARIO_LONG(C16, file, gen_file, run_file, 30000, 80);

// ------------------------------------------------------------------ C17
namespace {
struct Segment { ns_t mono, off; };
std::vector<Segment> segs;                // the wall clock over simulated time
int64_t day_of(ns_t t) { return t / DAY; }
std::string date_of(int64_t day, const char* f = ".%Y-%m-%d") { time_t t = (time_t)(day * 86400); struct tm tm; gmtime_r(&t, &tm); char b[32]; strftime(b, sizeof b, f, &tm); return b; }
std::set<int64_t> days_between(ns_t a, ns_t b)
{
  std::set<int64_t> d;
  for (size_t i = 0; i < segs.size(); ++i)
  {
    ns_t s = std::max(a, segs[i].mono), e = std::min(b, i + 1 < segs.size() ? segs[i + 1].mono : b);
    if (s > e) continue;
    for (int64_t k = day_of(s + segs[i].off); k <= day_of(e + segs[i].off); ++k) d.insert(k);
  }
  return d;
}
bool own_archive(const std::string& name, const std::string& file, int64_t* day)
{
  int y, m, d, n = 0;
  if (name.compare(0, file.size(), file) || sscanf(name.c_str() + file.size(), ".%4d-%2d-%2d%n", &y, &m, &d, &n) != 3 || n != 11) return false;
  size_t i = file.size() + 11;
  if (i + 1 < name.size() && name[i] == '.' && isdigit(name[i + 1])) { ++i; while (i < name.size() && isdigit(name[i])) ++i; }
  if (name.compare(i, 3, ".gz") == 0) i += 3;
  if (i != name.size()) return false;
  struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_year = y - 1900; tm.tm_mon = m - 1; tm.tm_mday = d;
  *day = timegm(&tm) / 86400;
  return true;
}
const char* const foreign[] = { "app.log.bak", "app.log2023-11-01", "my.app.log.2023-11-01", "app.log.2023-11-01.txt", "app.logger.log", "app.log.2023-11", "app.lo", "other.2023-11-01.gz", "app.log.2023-11-01.gz.part", "app.log.old.2023-11-01.gz", "app.log-2023-11-01", "app.logX2023-11-01.gz", "app.log_2023-11-01.gz", "app.log.2023-11-01.1.2.gz", "app.log.2023_11_01", "app.log.12023-11-01.gz" };
const int foreigns = sizeof foreign / sizeof *foreign;
}
// cfg: zip, flush, retention (0 none, N + 1), fault, rate, start, cycles allowed, seed of the earlier files, relative name, EINTR, second logger, age of an earlier log file (-1 none)
// fault: 0 none, 1 rename, 2 open, 3 write, 4 ENOSPC, 5 unlink, 6 directory, 7 stat, 8 crash, 9 full disk, 10 close, 11 read
// op: kind (0 log, 1 forward, 2 back, 3 sleep, 4 restart, 5 to just before midnight), argument
static void gen_rotate(Rng& r, Plan& p)
{
  int zip = r.chance(1, 3), fault = r.chance(1, 2) ? 0 : (int)r.below(12);
  if (zip && (fault == 3 || fault == 4 || fault == 9)) fault = 8;
  static const int64_t starts[] = { 0, 10 * 3600 * SEC, 86399 * SEC, 86399 * SEC + 999 * MS, 86385 * SEC, 86400 * SEC - 1, 1 };
  p.cfg = { zip, (int64_t)r.chance(2, 3), (int64_t)(r.chance(1, 2) ? 0 : r.range(1, 5)), fault, fault == 8 ? (r.chance(1, 2) ? r.range(1, 80) : r.range(1, 600)) : fault == 9 ? r.range(0, 4000) : r.range(30, 500),
            starts[r.below(7)] + r.below(3) * 59 * DAY, (int64_t)r.chance(1, 2), (int64_t)(r.chance(1, 2) ? r.range(1, 1 << 20) : 0), r.chance(1, 5), r.chance(1, 4) ? 200 : 0, (int64_t)r.chance(1, 3), (int64_t)(r.chance(1, 3) ? r.below(8) : -1) };
  int n = (int)r.range(2, 16);
  static const int64_t fw[] = { 1, 14 * SEC, 3600 * SEC, DAY / 2, DAY - 1, DAY, DAY, DAY + SEC, 2 * DAY, 3 * DAY, 40 * DAY, 366 * DAY };
  static const int64_t bw[] = { 1, 60 * SEC, DAY / 2, DAY, 2 * DAY };
  for (int i = 0; i < n; ++i)
  {
    int k = r.chance(1, 2) ? 0 : (int)r.below(6);
    p.ops.push_back({ k, k == 0 ? (r.chance(1, 6) ? r.range(500, 1900) : r.range(8, 60)) : k == 1 ? fw[r.below(12)] : k == 2 ? bw[r.below(5)] : k == 3 ? (int64_t[]){ 0, 100, MS, 300 * MS, 3 * SEC, 16 * SEC }[r.below(6)] : k == 5 ? (int64_t[]){ 1, MS, SEC, 5 * SEC }[r.below(4)] : 0 });
  }
}
static void run_rotate(const Plan& p)
{
  // 2023-11-12 00:00 UTC, 2024-01-10, 2024-02-28
  set_real((19673LL) * DAY + p.c(5));
  segs.clear(); segs.reserve(64); segs.push_back(Segment{ 0, real() - mono() });
  bool zip = p.c(0) != 0, flush = p.c(1) != 0; int64_t keep = p.c(2) - 1; int fault_kind = (int)p.c(3);
  const std::string dir = p.c(8) ? "/simfs/cwd" : "/simfs/log", name = "app.log", path = dir + "/" + name;
  fs::mkdir(dir); fs::fault_paths(dir);
  if (p.c(9)) set_rate(FT_EINTR_SEM, (int)p.c(9), 40);
  // files that are already there
  std::map<std::string, std::string> early;        // name -> content
  std::map<std::string, ns_t> early_at;
  static std::vector<Line*> lines;
  auto put = [&](const std::string& n, const std::string& c, ns_t mt) { fs::put(dir + "/" + n, c, mt); early[n] = c; early_at[n] = mt; };
  if (p.c(7))
  {
    Rng r((uint64_t)p.c(7));
    int64_t today = day_of(real());
    for (int i = 0; i < foreigns; ++i)
      if (r.chance(1, 2)) put(foreign[i], "foreign " + num(i), real() - r.range(0, 12) * DAY);
    int n = (int)r.below(6);
    for (int i = 0; i < n; ++i)
    {
      int64_t age = r.range(-1, 8), mt = (today - age + 1) * DAY + (r.chance(1, 3) ? 0 : r.chance(1, 2) ? -1 : r.range(0, DAY));
      put(name + date_of(today - age) + (r.chance(1, 4) ? "." + num(r.range(1, 3)) : "") + (zip && r.chance(3, 4) ? "" : ".gz"), "archive " + num(i), mt);
    }
    if (r.chance(1, 4)) { fs::mkdir(dir + "/" + name + date_of(today - 9) + ".gz"); fs::put(dir + "/" + name + date_of(today - 9) + ".gz/inside", "x", 0); }
  }
  auto add_line = [&](int id, int len) { Line* l = new Line; l->from = l->to = 0; l->m0 = l->m1 = 0; l->archive = 0; l->text = text_of(id, len); ATOMIC lines.push_back(l); return l; };
  if (p.c(11) >= 0)
  {
    ns_t written = real() - p.c(11) * DAY / 2;
    Line* l = add_line(9999, 20); l->from = l->to = 1; l->m1 = -100 * SEC; l->days.insert(day_of(written));
    std::string c = l->text + "\n";
    fs::put(path, zip ? deflate_gz(c) : c, written);
  }
  std::map<std::string, ns_t> seen_at;             // line -> oldest modification time of a file it was in
  std::set<std::string> seen;
  ns_t max_real = real(), back_to = real();
  bool back = false;
  // all log files: file name -> lines
  auto collect = [&](bool complete) {
    std::map<std::string, std::vector<std::string> > m;
    std::vector<std::string> v = fs::list(dir);
    for (size_t i = 0; i < v.size(); ++i)
    {
      int64_t d;
      if (v[i] != name && !own_archive(v[i], name, &d)) continue;
      if (early.count(v[i])) continue;
      if (fs::list(dir + "/" + v[i]).size()) continue;
      bool ok = true; std::string data = fs::get(dir + "/" + v[i]), rest;
      bool gz = zip || v[i] != name;
      if (gz) data = inflate_all(data, &ok);
      if (complete && gz) SIM_CHECK(ok, "damaged", "%s cannot be decompressed", v[i].c_str());
      m[v[i]] = lines_of(data, &rest);
      ns_t mt = fs::mtime(dir + "/" + v[i]);
      for (size_t k = 0; k < m[v[i]].size(); ++k)
      {
        const std::string& t = m[v[i]][k];
        seen.insert(t);
        if (!seen_at.count(t) || mt < seen_at[t]) seen_at[t] = mt;
      }
    }
    return m;
  };
  // after the clock was set back an archive may have been written at any time from then on
  auto expired = [&](ns_t mt) { return keep >= 0 && (back ? std::min(mt, back_to) : mt) < (day_of(max_real) - keep) * DAY; };
  auto final_check = [&](bool crashed) {
    max_real = std::max(max_real, real());
    std::set<std::string> seen0 = seen; std::map<std::string, ns_t> at0 = seen_at;
    std::map<std::string, std::vector<std::string> > m = collect(!crashed && fault_kind == 0);
    std::map<std::string, int> count;
    for (auto& f : m) for (auto& t : f.second) ++count[t];
    for (auto& t : seen0)
      SIM_CHECK(count.count(t) || expired(at0[t]), "lost", "line '%.16s' was in a log file and is gone from the file and all archives", t.c_str());
    for (auto& e : early)
    {
      int64_t d; bool own = own_archive(e.first, name, &d);
      ns_t mt = fs::mtime(dir + "/" + e.first);
      if (mt < 0) { SIM_CHECK(own, "foreign", "%s, which is no archive of the log file, was deleted", e.first.c_str()); SIM_CHECK(expired(early_at[e.first]), "lost", "%s was deleted although it is not old enough", e.first.c_str()); continue; }
      if (own && expired(early_at[e.first])) continue;     // deleted, and the name used again
      SIM_CHECK(fs::get(dir + "/" + e.first) == e.second, own ? "overwritten" : "foreign", "%s was overwritten", e.first.c_str());
    }
    std::set<std::string> known;
    for (auto* l : lines) known.insert(l->text);
    if (fault_kind == 0 || fault_kind == 8)
    {
      for (auto& c : count)
      {
        SIM_CHECK(known.count(c.first), "garbage", "a line in a log file is none that was logged");
        SIM_CHECK(c.second == 1 || crashed, "duplicate", "line '%.16s' is in the log files %d times", c.first.c_str(), c.second);
      }
      for (auto* l : lines)
        if (l->to && (!crashed || (flush && mono() - l->m1 > GRACE)))
          SIM_CHECK(count.count(l->text) || (seen_at.count(l->text) && expired(seen_at[l->text])) || (keep >= 0 && expired(*l->days.begin() * DAY)), "lost", "line '%.16s' is in no log file", l->text.c_str());
    }
    return m;
  };
  on_crash([&]() { final_check(true); probe("crashed"); });
  switch (fault_kind)
  {
    case 1: set_rate(FT_RENAME_ERR, (int)p.c(4), 8); break;
    case 2: set_rate(FT_OPEN_ERR, (int)p.c(4), 8); break;
    case 3: set_rate(FT_WRITE_ERR, (int)p.c(4), 8); break;
    case 4: set_rate(FT_ENOSPC, (int)p.c(4), 8); break;
    case 5: set_rate(FT_UNLINK_ERR, (int)p.c(4), 8); break;
    case 6: set_rate(FT_DIR_ERR, (int)p.c(4), 8); break;
    case 7: set_rate(FT_STAT_ERR, (int)p.c(4), 20); break;
    case 8: crash_after_calls(p.c(4)); break;
    case 9: fs::set_capacity(p.c(4)); break;
    case 10: set_rate(FT_CLOSE_ERR, (int)p.c(4), 8); break;
    case 11: set_rate(FT_READ_ERR, (int)p.c(4), 8); break;
  }
  std::vector<std::set<int64_t> > ups;             // opening and closing the file count as its last modification
  auto up = [&]() {
    cfg("OutputStream0/OutputStreamName", "File"); cfg("OutputStream0/Name", "TheFile"); cfg("OutputStream0/FileName", p.c(8) ? name : path);
    cfg("OutputStream0/Format", "~E"); cfg("OutputStream0/LogLevel", "Trace"); cfg("OutputStream0/Rotate", "true");
    if (keep >= 0) cfg("OutputStream0/DeleteOlderThan", num(keep));
    if (!flush) cfg("OutputStream0/Flush", "false");
    if (zip) cfg("OutputStream0/Zip", "true");
    ns_t m0 = mono();
    icl::initialize();
    ups.push_back(days_between(m0, mono()));
  };
  auto log = [&](int id, int len) {
    Line* l = add_line(id, len);
    l->m0 = mono(); l->from = seq();
    SLOGGING_LOG(SimF::instance(), icl::eLL_WARNING, l->text << icl::endl);
    l->m1 = mono(); l->to = seq();
  };
  auto jump = [&](ns_t d) { ATOMIC { max_real = std::max(max_real, real()); jump_clock(d); if (d < 0) { back = true; back_to = std::min(back_to, real()); } segs.push_back(Segment{ mono(), real() - mono() }); max_real = std::max(max_real, real()); } };
  up();
  bool restarts = p.c(6) != 0, second = p.c(10) && !restarts, over = false, restarted = false;
  int other = -1;
  if (second) other = spawn("logger", [&]() {
    for (int i = 0; i < 12 && !over; ++i) { log(500 + i, 12); sleep_ns((int64_t[]){ 0, 100, MS, 300 * MS, 2 * SEC }[i % 5]); }
  });
  for (size_t i = 0; i < p.ops.size(); ++i)
  {
    const std::vector<int64_t>& o = p.ops[i];
    switch (arg(o, 0))
    {
      case 0: log((int)i, (int)arg(o, 1)); break;
      case 1: jump(arg(o, 1)); break;
      case 2: jump(-arg(o, 1)); break;
      case 3: sleep_ns(arg(o, 1)); break;
      case 4: if (restarts) { ns_t m0 = mono(); icl::shutdown(); ups.push_back(days_between(m0, mono())); SIM_CHECK(fs::open_fds() == 0, "fd-leak", "a file is still open after the shutdown"); ATOMIC collect(false); up(); restarted = true; } break;
      default: { ns_t left = DAY - real() % DAY; if (left > arg(o, 1)) jump(left - arg(o, 1)); break; }
    }
    ATOMIC { max_real = std::max(max_real, real()); collect(false); }
  }
  over = true;
  if (second) join(other);
  bool last_day = fault_kind == 0 && !back;
  size_t before_last = lines.size();
  if (last_day)
  {
    sleep_ns(GRACE);
    jump(DAY - real() % DAY + DAY / 2);
    before_last = lines.size();
    log(7000, 20);
    sleep_ns(GRACE);
  }
  icl::shutdown();
  SIM_CHECK(fs::open_fds() == 0, "fd-leak", "a file is still open after the shutdown");
  for (auto* l : lines) if (l->days.empty()) l->days = days_between(l->m0, l->m1 + GRACE);
  crash_after_calls(0);
  std::map<std::string, std::vector<std::string> > m = final_check(false);
  if (fault_kind != 0) return;
  // every file holds the lines of one day, and an archive has its name
  std::map<std::string, Line*> by;
  for (auto* l : lines) by[l->text] = l;
  if ((flush && !back) || !restarted)
    for (auto& f : m)
    {
      if (f.second.empty()) continue;
      std::set<int64_t> reach; int64_t d = 0;
      std::vector<Line*> v; for (auto& t : f.second) v.push_back(by[t]);
      if (f.first != name) { own_archive(f.first, name, &d); reach.insert(d); }
      else reach = v[0]->days;
      std::vector<char> in(v.size(), 0);
      for (bool more = true; more; )
      {
        more = false;
        for (auto& u : ups)
        {
          bool hit = false, all = true;
          for (int64_t x : u) { hit = hit || reach.count(x); all = all && reach.count(x); }
          if (hit && !all) { reach.insert(u.begin(), u.end()); more = true; }
        }
        for (size_t i = 0; i < v.size(); ++i)
        {
          if (in[i]) continue;
          bool hit = false;
          for (int64_t x : v[i]->days) hit = hit || reach.count(x);
          if (hit) { in[i] = 1; more = true; reach.insert(v[i]->days.begin(), v[i]->days.end()); }
        }
      }
      for (size_t i = 0; i < v.size(); ++i)
        SIM_CHECK(in[i], "wrong-day", "line '%.16s' of %s is in %s", v[i]->text.c_str(), date_of(*v[i]->days.begin(), "%Y-%m-%d").c_str(), f.first.c_str());
    }
  if (last_day)
  {
    SIM_CHECK(m.count(name) && m[name].size() == 1, "wrong-day", "%zu lines are in the log file after the change of the day", m.count(name) ? m[name].size() : 0);
    std::vector<std::string> v = fs::list(dir);
    for (size_t i = 0; i < v.size(); ++i)
    {
      int64_t d;
      if (!own_archive(v[i], name, &d) || fs::list(dir + "/" + v[i]).size()) continue;
      SIM_CHECK(!expired(fs::mtime(dir + "/" + v[i])), "kept", "%s should have been deleted", v[i].c_str());
    }
    probe("rotated_at_end");
  }
  for (auto& e : early)
  {
    int64_t d;
    ns_t mt = fs::mtime(dir + "/" + e.first);
    if (mt < 0 && own_archive(e.first, name, &d)) probe("archive_expired");
  }
}
SIM_SCENARIO_LONG(C17, rotate, gen_rotate, run_rotate, 30000, 60);

// ------------------------------------------------------------------ C18
// cfg: fault, rate, crash point, harmless short reads and writes
// op: thread, size, kind of content, extension, earlier archive, kind of source (0 file, 1 none, 2 directory, 3 archive directory missing)
static void gen_zip(Rng& r, Plan& p)
{
  static const int64_t sizes[] = { 0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 40000, 200000, 300000, 1050000 };
  int fault = r.chance(1, 3) ? 0 : (int)r.range(1, 9);
  p.cfg = { fault, fault == 7 ? r.range(0, 9000) : r.range(20, 500), fault == 8 ? r.range(1, 60) : 0, r.chance(1, 3) ? r.range(100, 700) : 0 };
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) p.ops.push_back({ (int64_t)r.below(2), sizes[r.below(r.chance(1, 6) ? 16 : 13)], (int64_t)(r.chance(1, 4) ? r.below(5) : r.below(3)), (int64_t)r.below(3), (int64_t)r.chance(1, 3), (int64_t)(r.chance(3, 4) ? 0 : r.below(4)) });
}
static void run_zip(const Plan& p)
{
  set_real(EPOCH0);
  fs::mkdir("/simfs/z");
  set_step_limit(20000000);
  fs::fault_paths("/simfs/z");
  static const char* const ext[] = { "", ".2023-11-14", ".x y" };
  int n = (int)p.ops.size();
  std::vector<std::string> src(n), data(n), dst(n), old(n);
  for (int i = 0; i < n; ++i)
  {
    const std::vector<int64_t>& o = p.ops[i];
    src[i] = "/simfs/z/file" + num(i);
    Rng r(77 + i);
    std::string block;
    for (int64_t k = 0; k < std::min<int64_t>(arg(o, 1), 1021); ++k) block += arg(o, 2) == 0 ? (char)(r.next() & 255) : arg(o, 2) == 1 ? "log line\n"[k % 9] : (char)(k < 20 ? 0 : 'a' + r.below(3));
    while ((int64_t)data[i].size() < arg(o, 1)) data[i].append(block, 0, arg(o, 1) - data[i].size());
    if (arg(o, 2) >= 3) data[i] = deflate_gz(data[i]);                                   // the file is zipped itself,
    if (arg(o, 2) == 4 && data[i].size() > 2) data[i].resize(2 + data[i].size() / 2);    // also only a part of it
    switch (arg(o, 5))
    {
      case 0: fs::put(src[i], data[i], real() - DAY); break;
      case 2: fs::mkdir(src[i]); break;
      case 3: src[i] = "/simfs/z/none/file"; break;
    }
    dst[i] = src[i] + ext[arg(o, 3) % 3] + ".gz";
    if (arg(o, 4) && arg(o, 5) != 3) { old[i] = deflate_gz("an earlier archive " + num(i) + std::string(300, 'q')); fs::put(dst[i], old[i]); }
  }
  auto source_ok = [&]() {
    for (int i = 0; i < n; ++i)
      if (arg(p.ops[i], 5) == 0) SIM_CHECK(fs::get(src[i]) == data[i], "source", "the file to be zipped was changed");
  };
  on_crash([&]() { source_ok(); probe("crashed"); });
  if (p.c(3)) { set_rate(FT_SHORT_READ, (int)p.c(3), 60); set_rate(FT_SHORT_WRITE, (int)p.c(3), 60); }
  int rate = (int)p.c(1);
  switch (p.c(0))
  {
    case 1: set_rate(FT_READ_ERR, rate, 6); break;
    case 2: set_rate(FT_WRITE_ERR, rate, 6); break;
    case 3: set_rate(FT_OPEN_ERR, rate, 6); break;
    case 4: set_rate(FT_CLOSE_ERR, rate, 6); break;
    case 5: set_rate(FT_ENOSPC, rate, 6); break;
    case 6: set_rate(FT_EINTR_READ, rate, 6); set_rate(FT_EINTR_WRITE, rate, 6); break;
    case 7: fs::set_capacity(rate); break;
    case 8: crash_after_calls(p.c(2)); break;
    case 9: fs::chmod_dir("/simfs/z", false); break;
  }
  std::vector<int> ths;
  for (int t = 0; t < 2; ++t)
    ths.push_back(spawn("zipper", [&, t]() {
      for (int i = 0; i < n; ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        bool ok = arg(o, 3) % 3 ? icl_core::os::zipFile(src[i].c_str(), ext[arg(o, 3) % 3]) : icl_core::os::zipFile(src[i].c_str());
        ATOMIC
        {
          std::string z = fs::get(dst[i]);
          if (ok)
          {
            bool complete = false;
            SIM_CHECK(arg(o, 5) == 0, "result", "zipping something that is no file reported success");
            SIM_CHECK(fs::exists(dst[i]), "incomplete", "zipFile() reported success but there is no archive");
            std::string back = inflate_all(z, &complete);
            SIM_CHECK(complete && back == data[i] && !z.empty(), "incomplete", "zipFile() reported success but the archive does not hold the %zu bytes of the file", data[i].size());
          }
          else
          {
            SIM_CHECK(!fs::exists(dst[i]) || p.c(0) == 9 || (!old[i].empty() && z == old[i]), "leftover", "zipFile() failed and left an archive of %zu bytes behind", z.size());
            if ((p.c(0) == 0 || p.c(0) == 8) && arg(o, 5) == 0) SIM_CHECK(false, "result", "zipFile() reported failure although nothing failed");
            probe("failed");
          }
        }
        source_ok();
      }
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  SIM_CHECK(fs::open_fds() == 0, "fd-leak", "zipFile() left a file open");
  std::vector<std::string> v = fs::list("/simfs/z");
  for (size_t k = 0; k < v.size(); ++k)
  {
    bool known = false;
    for (int i = 0; i < n; ++i) known = known || src[i] == "/simfs/z/" + v[k] || dst[i] == "/simfs/z/" + v[k];
    SIM_CHECK(known, "leftover", "zipFile() left the file %s behind", v[k].c_str());
  }
}
SIM_SCENARIO(C18, zip, gen_zip, run_zip, 90000);
