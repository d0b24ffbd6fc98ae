// C19 SQLite log output, C20 UDP log output
#include "common.h"
#include <sqlite3.h>
#include <time.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <icl_core_config/Config.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
using namespace scn;
namespace icl = icl_core::logging;
DECLARE_LOG_STREAM(SimQ)
REGISTER_LOG_STREAM(SimQ)
DECLARE_LOG_STREAM(SimU)
REGISTER_LOG_STREAM(SimU)
namespace {
void cfg(const std::string& k, const std::string& v) { icl_core::config::setValue<icl_core::String>("/IclCore/Logging/" + k, v); }
struct Msg
{
  std::string stream, level, file, cls, obj, fn, text; int64_t line;
  uint64_t from, to; ns_t m0, m1, r0, r1; bool jumped;
};
const char* const levels[] = { "Trace", "Debug", "Info", "Warning", "Error" };
// texts that need quoting
std::string spice(int id, int64_t kind, int len)
{
  static const char* const bits[] = { "", "'", "''", "it's", "');DROP TABLE log_entries;--", "\\'", "\\", "\"q\"", "%s%n", "$&\\1", "\t\n", "\xc3\xa4\xe2\x82\xac", ",','", "'a','b'" };
  std::string s = "m" + num(id) + " " + bits[kind % 14];
  while ((int)s.size() < len) s += (char)('a' + (id * 3 + (int)s.size()) % 26);
  if (kind % 3 == 1) s += bits[kind % 14];
  return s;
}
std::string name_of(int id, int64_t kind) { static const char* const n[] = { "", "Cls", "a::b", "O'Brien", "x\\y", "~Z()", "op'" }; return kind % 7 ? n[kind % 7] + num(id) : ""; }
Msg* make(int id, const std::vector<int64_t>& o, size_t first)
{
  Msg* m = new Msg;
  m->line = (1 + id * 31) * (id % 4 == 3 ? 9001 : 1); m->text = spice(id, arg(o, first), (int)arg(o, first + 1)); m->cls = name_of(id, arg(o, first + 2)); m->obj = name_of(id, arg(o, first + 3)); m->file = "dir/" + name_of(id, arg(o, first + 4)) + ".cpp";
  m->level = levels[arg(o, first + 5) % 5]; m->fn = "emit"; m->from = m->to = 0; m->m0 = m->m1 = m->r0 = m->r1 = 0; m->jumped = false;
  return m;
}
void emit(icl::LogStream& st, Msg* m, int level)
{
  int j = fired(FT_CLOCK_JUMP);
  m->m0 = mono(); m->r0 = real(); m->from = seq();
  SLOGGING_LOG_FLCO(st, (icl::LogLevel)level, m->file.c_str(), m->line, m->cls.c_str(), m->obj.c_str(), m->text << icl::flush);
  m->r1 = real(); m->m1 = mono(); m->jumped = fired(FT_CLOCK_JUMP) != j; m->to = seq();
}
std::string local_time(ns_t t, int) { time_t s = (time_t)(t / SEC); struct tm tm; localtime_r(&s, &tm); char b[40]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); return b; }
bool time_fits(const std::string& s, const Msg& m) { for (ns_t t = m.r0 - SEC; t <= m.r1 + SEC; t += SEC) { if (local_time(std::min(std::max(t, m.r0 - US), m.r1), 0) == s) return true; } return local_time(m.r1, 0) == s; }
struct Segment { ns_t at, offset; };        // the wall clock is offset from the steady clock from "at" on
// the days (UTC) on which something done between two moments may have been done
std::set<int64_t> days(const std::vector<Segment>& segs, ns_t from, ns_t to)
{
  std::set<int64_t> d;
  for (size_t i = 0; i < segs.size(); ++i)
  {
    ns_t a = std::max(from, segs[i].at), b = i + 1 < segs.size() ? std::min(to, segs[i + 1].at) : to;
    if (a <= b) for (int64_t k = (a + segs[i].offset - US) / DAY; k <= (b + segs[i].offset + US) / DAY; ++k) d.insert(k);
  }
  return d;
}
const int64_t gaps[] = { 0, 0, 0, 100, MS, 40 * MS, 2 * SEC, 20 * SEC };

// ---------------------------------------------------------------- data base
struct Row { std::string f[11]; };
std::vector<Row> read_db(const std::string& path, bool* sound)
{
  std::vector<Row> v;
  sqlite3* db = 0;
  *sound = true;
  if (sqlite3_open(path.c_str(), &db) != SQLITE_OK) { *sound = false; sqlite3_close(db); return v; }
  sqlite3_stmt* st = 0;
  if (sqlite3_prepare_v2(db, "PRAGMA integrity_check", -1, &st, 0) != SQLITE_OK || sqlite3_step(st) != SQLITE_ROW || strcmp((const char*)sqlite3_column_text(st, 0), "ok")) *sound = false;
  sqlite3_finalize(st); st = 0;
  if (*sound && sqlite3_prepare_v2(db, "SELECT app_id, timestamp, log_stream, log_level, filename, line, class_name, object_name, function_name, message FROM log_entries ORDER BY seq", -1, &st, 0) == SQLITE_OK)
  {
    int r;
    while ((r = sqlite3_step(st)) == SQLITE_ROW)
    {
      Row w;
      for (int i = 0; i < 10; ++i) { const char* t = (const char*)sqlite3_column_text(st, i); w.f[i] = t ? t : "(null)"; }
      v.push_back(w);
    }
    if (r != SQLITE_DONE) *sound = false;
  }
  sqlite3_finalize(st);
  sqlite3_close(db);
  return v;
}
}
// ------------------------------------------------------------------ C19
// cfg: threads, fault, rate, rows already there, EINTR, harmless faults, rotation, start, operation that heals, relative name
// fault: 0 none, 1 open, 2 write, 3 ENOSPC, 4 read, 5 unlink, 6 locked, 7 crash, 8 full disk, 9 the path fails, 10 rename, 11 stat, 12 close
// op: thread, kind (0 log, 1 wall clock), pause or jump, text kind, length, class, object, file, level
static void gen_sqlite(Rng& r, Plan& p)
{
  int fault = r.chance(1, 3) ? 0 : (int)r.range(1, 12), nt = (int)r.range(1, 3), n = (int)r.range(1, 10);
  static const int64_t starts[] = { 0, 43200 * SEC, 86399 * SEC, 86400 * SEC - 300 * US };
  p.cfg = { nt, fault, fault == 7 ? (r.chance(1, 2) ? r.range(1, 150) : r.range(1, 1200)) : fault == 8 ? r.range(0, 30000) : r.range(20, 400), (int64_t)(r.chance(1, 3) ? r.range(1, 40) : 0), r.chance(1, 4) ? 200 : 0,
            r.chance(1, 3) ? r.range(50, 500) : 0, r.chance(1, 2), starts[r.below(4)], r.range(0, n), r.chance(1, 6) };
  static const int64_t jumps[] = { 1, 3600 * SEC, DAY, DAY, DAY, 2 * DAY, -DAY, -DAY, -2 * DAY, 400 * DAY };
  for (int i = 0; i < n; ++i)
  {
    bool j = r.chance(1, 4);
    p.ops.push_back({ (int64_t)r.below(nt), j, j ? jumps[r.below(10)] : gaps[r.below(8)], (int64_t)r.below(14), (int64_t)(r.chance(1, 5) ? r.range(300, 1900) : 0), (int64_t)r.below(7), (int64_t)r.below(7), (int64_t)r.below(7), (int64_t)r.below(5) });
  }
}
static void run_sqlite(const Plan& p)
{
  set_step_limit(20000000);
  set_real(19673LL * DAY + p.c(7));
  int nt = (int)p.c(0, 1), fault_kind = (int)p.c(1);
  std::string dir = p.c(9) ? "/simfs/cwd" : "/simfs/db", name = "log.db", path = dir + "/" + name;
  fs::mkdir(dir); fs::fault_paths(dir); fs::mkdir("/simfs/copy");
  static std::vector<Msg*> msgs;
  std::map<std::string, std::string> early;
  int nearly = (int)p.c(3);
  if (nearly)
  {
    NoPreempt np;
    sqlite3* db = 0; sqlite3_open((dir + "/" + name).c_str(), &db);
    sqlite3_exec(db, "CREATE TABLE log_entries (seq INTEGER PRIMARY KEY, app_id TEXT, timestamp TIMESTAMP, log_stream TEXT, log_level TEXT, filename TEXT, line INTEGER, class_name TEXT, object_name TEXT, function_name TEXT, message TEXT)", 0, 0, 0);
    for (int i = 0; i < nearly; ++i) sqlite3_exec(db, ("INSERT INTO log_entries (app_id, message) VALUES ('early', 'early " + num(i) + std::string(200, 'e') + "')").c_str(), 0, 0, 0);
    sqlite3_close(db);
    if (nearly % 2) { early["log.db.2023-11-12"] = "not even a data base"; early["log.db.2023-11-13"] = std::string(3000, 'z'); }
    for (auto& e : early) fs::put(dir + "/" + e.first, e.second);
  }
  std::vector<Segment> segs; segs.push_back(Segment{ mono(), real() - mono() });
  ns_t began = mono();
  uint64_t healed_at = 0; bool healthy = fault_kind == 0 || fault_kind == 7;
  auto final_check = [&](bool crashed) {
    std::vector<std::string> v = fs::list(dir);
    for (auto& f : v) fs::put("/simfs/copy/" + f, fs::get(dir + "/" + f));
    for (auto& e : early) SIM_CHECK(fs::get(dir + "/" + e.first) == e.second, "overwritten", "%s was overwritten", e.first.c_str());
    std::map<std::string, int> index; std::vector<int> count(msgs.size(), 0);
    std::vector<std::pair<int, int> > pos(msgs.size(), std::make_pair(-1, -1));
    for (size_t k = 0; k < msgs.size(); ++k) index[msgs[k]->text] = (int)k;
    int old = 0, file = 0;
    for (auto& f : v)
    {
      if (early.count(f) || (f.size() > 8 && f.compare(f.size() - 8, 8, "-journal") == 0)) continue;
      ++file;
      bool sound; std::vector<Row> rows = read_db("/simfs/copy/" + f, &sound);
      SIM_CHECK(sound, "damaged", "the database %s is damaged", f.c_str());
      for (size_t i = 0; i < rows.size(); ++i)
      {
        Row& w = rows[i];
        if (w.f[0] == "early") { ++old; continue; }
        SIM_CHECK(index.count(w.f[9]), "text", "a row of the database holds the text '%.30s', which was never logged", w.f[9].c_str());
        int k = index[w.f[9]]; const Msg& m = *msgs[k];
        SIM_CHECK(++count[k] == 1, "duplicate", "message '%.20s' is in the database twice", m.text.c_str());
        pos[k] = std::make_pair(file, (int)i);
        SIM_CHECK(w.f[0] == "" && w.f[2] == "SimQ" && w.f[3] == m.level && w.f[4] == m.file && w.f[5] == num(m.line) && w.f[6] == m.cls && w.f[7] == m.obj && w.f[8] == m.fn, "field",
                  "message '%.20s' is in the database with wrong fields (%s,%s,%s,%s,%s,%s,%s)", m.text.c_str(), w.f[2].c_str(), w.f[3].c_str(), w.f[4].c_str(), w.f[5].c_str(), w.f[6].c_str(), w.f[7].c_str(), w.f[8].c_str());
        if (m.to && !m.jumped) SIM_CHECK(time_fits(w.f[1], m), "field", "message '%.20s' is in the database with the time %s", m.text.c_str(), w.f[1].c_str());
      }
    }
    if (!p.c(6)) SIM_CHECK(file <= 1, "rotated", "there are %d databases although rotation is off", file);
    if (p.c(6) && fault_kind == 0)
    {
      // without a change of the day there is one database, across a change of the day there are two
      std::set<int64_t> all = days(segs, began, mono());
      if (all.size() == 1) SIM_CHECK(file <= 1, "rotated", "there are %d databases although the day did not change", file);
      for (size_t a = 0; a < msgs.size(); ++a)
        for (size_t b = 0; b < msgs.size(); ++b)
        {
          if (!msgs[a]->to || !msgs[b]->to || pos[a].first < 0 || pos[a].first != pos[b].first) continue;
          std::set<int64_t> x = days(segs, msgs[a]->m0, msgs[a]->m1 + 15 * SEC), y = days(segs, msgs[b]->m0, msgs[b]->m1 + 15 * SEC);
          bool common = false;
          for (std::set<int64_t>::iterator i = x.begin(); i != x.end(); ++i) common |= y.count(*i) > 0;
          SIM_CHECK(common, "not-rotated", "messages '%.20s' and '%.20s' of different days are in the same database", msgs[a]->text.c_str(), msgs[b]->text.c_str());
          probe("same-day");
        }
    }
    SIM_CHECK(old == nearly, "lost", "%d of the %d rows that were in the database before are left", old, nearly);
    for (size_t a = 0; a < msgs.size(); ++a)
      for (size_t b = 0; b < msgs.size(); ++b)
        if (msgs[a]->to && msgs[b]->from && msgs[a]->to < msgs[b]->from && pos[a].first >= 0 && pos[a].first == pos[b].first)
          SIM_CHECK(pos[a].second < pos[b].second, "order", "a message logged before another one is behind it in the database");
    return count;
  };
  on_crash([&]() {
    ns_t now = mono();
    std::vector<int> c = final_check(true);
    for (size_t k = 0; k < msgs.size(); ++k) SIM_CHECK(c[k] || !msgs[k]->to || now - msgs[k]->m1 < 15 * SEC, "lost", "message '%.20s' was lost in a crash", msgs[k]->text.c_str());
    probe("crashed");
  });
  if (p.c(4)) set_rate(FT_EINTR_SEM, (int)p.c(4), 40);
  if (p.c(5)) { set_rate(FT_SHORT_WRITE, (int)p.c(5), 40); set_rate(FT_EINTR_WRITE, (int)p.c(5), 40); set_rate(FT_EINTR_READ, (int)p.c(5), 40); }
  switch (fault_kind)
  {
    case 1: set_rate(FT_OPEN_ERR, (int)p.c(2), 10); break;
    case 2: set_rate(FT_WRITE_ERR, (int)p.c(2), 10); break;
    case 3: set_rate(FT_ENOSPC, (int)p.c(2), 10); break;
    case 4: set_rate(FT_READ_ERR, (int)p.c(2), 10); break;
    case 5: set_rate(FT_UNLINK_ERR, (int)p.c(2), 10); break;
    case 6: set_rate(FT_DB_LOCKED, (int)p.c(2), 10); break;
    case 7: crash_after_calls(p.c(2)); break;
    case 8: fs::set_capacity(p.c(2)); break;
    case 9: fs::fail_path(dir, p.c(2) % 2 ? EACCES : ENOENT); break;
    case 10: set_rate(FT_RENAME_ERR, (int)p.c(2), 10); break;
    case 11: set_rate(FT_STAT_ERR, (int)p.c(2), 10); break;
    case 12: set_rate(FT_CLOSE_ERR, (int)p.c(2), 10); break;
  }
  cfg("OutputStream0/OutputStreamName", "SQLite"); cfg("OutputStream0/Name", "Db"); cfg("OutputStream0/FileName", p.c(9) ? name : path); cfg("OutputStream0/LogLevel", "Trace");
  if (p.c(6)) cfg("OutputStream0/Rotate", "true");
  cfg("LogStream0/Name", "SimQ"); cfg("LogStream0/LogLevel", "Trace");
  icl::initialize();
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("logger", [&, t]() {
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        if (!healthy && (int64_t)i >= p.c(8))
        {
          ATOMIC if (!healthy) { faults_off(); fs::set_capacity(-1); fs::fail_path("", 0); healthy = true; healed_at = seq(); probe("healed"); }
          sleep_ns(SEC);
        }
        if (arg(o, 1)) { ATOMIC { jump_clock(std::max<ns_t>(arg(o, 2), SEC - real())); segs.push_back(Segment{ mono(), real() - mono() }); } continue; }
        if (arg(o, 2)) sleep_ns(arg(o, 2));
        Msg* m = make((int)i, o, 3);
        ATOMIC msgs.push_back(m);
        emit(SimQ::instance(), m, (int)arg(o, 8) % 5);
      }
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  icl::shutdown();
  crash_after_calls(0);
  faults_off(); fs::set_capacity(-1); fs::fail_path("", 0);
  SIM_CHECK(fs::open_fds() == 0, "fd-leak", "a file is still open after the shutdown");
  ATOMIC
  {
    std::vector<int> c = final_check(false);
    int64_t broken = 0, missing = 0; int late = 0;
    static const Fault fts[] = { FT_OPEN_ERR, FT_WRITE_ERR, FT_ENOSPC, FT_READ_ERR, FT_UNLINK_ERR, FT_DB_LOCKED, FT_DISK_FULL, FT_STAT_ERR, FT_CLOSE_ERR };
    for (Fault f : fts) broken += fired(f);
    for (auto& l : fs::log) if (l.ret < 0 && fault_kind == 9) ++broken;
    for (size_t k = 0; k < msgs.size(); ++k)
    {
      if (c[k]) continue;
      ++missing;
      SIM_CHECK(fault_kind != 0 && fault_kind != 7 && fault_kind != 10, "lost", "message '%.20s' is not in the database", msgs[k]->text.c_str());
      // (a database that was opened read-only because of a fault is noticed only by the next insertion)
      SIM_CHECK(!(healed_at && msgs[k]->from > healed_at && late++), "lost", "message '%.20s', logged after the faults, is not in the database", msgs[k]->text.c_str());
    }
    SIM_CHECK(missing <= broken, "lost", "%ld messages are not in the database although only %ld file operations failed", (long)missing, (long)broken);
  }
}
SIM_SCENARIO_LONG(C19, sqlite, gen_sqlite, run_sqlite, 35000, 250);

// ------------------------------------------------------------------ C20
namespace {
// The values of an SQL VALUES list: strings in quotes (a quote doubled) and numbers.
bool sql_values(const std::string& s, std::vector<std::string>& v, std::string& kinds)
{
  size_t i = 0;
  for (;;)
  {
    std::string x;
    if (i < s.size() && s[i] == '\'')
    {
      for (++i; ; ++i)
      {
        if (i >= s.size()) return false;
        if (s[i] == '\'') { if (i + 1 < s.size() && s[i + 1] == '\'') ++i; else break; }
        x += s[i];
      }
      ++i; kinds += 's';
    }
    else { while (i < s.size() && (isdigit(s[i]) || s[i] == '-')) x += s[i++]; if (x.empty()) return false; kinds += 'n'; }
    v.push_back(x);
    if (i == s.size()) return true;
    if (s[i++] != ',') return false;
  }
}
}
// cfg: threads, host, DNS fault rate, socket fault rate, connect fault rate, send fault rate, EINTR, system name, drop rate, port
// op: thread, pause, text kind, length, class, object, file, level
static void gen_udp(Rng& r, Plan& p)
{
  int nt = (int)r.range(1, 3);
  p.cfg = { nt, (int64_t)r.below(3), r.chance(1, 6) ? 500 : 0, r.chance(1, 6) ? 400 : 0, r.chance(1, 5) ? 400 : 0, r.chance(1, 3) ? r.range(50, 500) : 0, r.chance(1, 4) ? 200 : 0, (int64_t)r.below(4), r.chance(1, 4) ? 300 : 0, (int64_t)r.below(3) };
  int n = (int)r.range(1, 14);
  for (int i = 0; i < n; ++i)
    p.ops.push_back({ (int64_t)r.below(nt), gaps[r.below(8)], (int64_t)r.below(14), (int64_t)(r.chance(1, 4) ? r.range(300, 1900) : 0), (int64_t)r.below(7), (int64_t)r.below(7), (int64_t)r.below(7), (int64_t)r.below(5) });
}
static void run_udp(const Plan& p)
{
  set_real(EPOCH0 + 999900000);
  int nt = (int)p.c(0, 1);
  static const char* const hosts[] = { "192.168.7.5", "log.example", "multi.example" };
  static const char* const systems[] = { "robot", "O'System", "a b\\c", "" };
  static const char* const ports[] = { "", "1234", "65535" };
  static const char* const want_port[] = { "60000", "1234", "65535" };
  int sys = (int)p.c(7) % 4;
  std::vector<std::string> addresses;
  {
    struct addrinfo* a = 0;
    if (getaddrinfo(hosts[p.c(1) % 3], "1", 0, &a) == 0)
      for (struct addrinfo* i = a; i; i = i->ai_next) { char b[40]; inet_ntop(AF_INET, &((struct sockaddr_in*)i->ai_addr)->sin_addr, b, sizeof b); addresses.push_back(b); }
    if (a) freeaddrinfo(a);
  }
  if (p.c(2)) set_rate(FT_DNS_ERR, (int)p.c(2));
  if (p.c(3)) set_rate(FT_SOCK_ERR, (int)p.c(3));
  if (p.c(4)) set_rate(FT_CONNECT_ERR, (int)p.c(4));
  if (p.c(5)) set_rate(FT_SEND_ERR, (int)p.c(5), 6);
  if (p.c(6)) set_rate(FT_EINTR_SEM, (int)p.c(6), 40);
  if (p.c(8)) set_rate(FT_NET_DROP, (int)p.c(8));
  cfg("OutputStream0/OutputStreamName", "UDP"); cfg("OutputStream0/Name", "Udp"); cfg("OutputStream0/Host", hosts[p.c(1) % 3]); cfg("OutputStream0/LogLevel", "Trace");
  if (p.c(9) % 3) cfg("OutputStream0/Port", ports[p.c(9) % 3]);
  cfg("OutputStream0/SystemName", systems[sys]);
  cfg("LogStream0/Name", "SimU"); cfg("LogStream0/LogLevel", "Trace");
  icl::initialize();
  // which socket the output could get: the first address that can be connected to
  size_t first = fired(FT_SOCK_ERR) + fired(FT_CONNECT_ERR);
  bool up = fired(FT_DNS_ERR) == 0 && first < addresses.size();
  if (!up) probe("unreachable");
  SIM_CHECK(open_sockets() == (up ? 1 : 0), "socket", "%d sockets are open", open_sockets());
  static std::vector<Msg*> msgs;
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("logger", [&, t]() {
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        if (arg(o, 1)) sleep_ns(arg(o, 1));
        Msg* m = make((int)i, o, 2);
        ATOMIC msgs.push_back(m);
        emit(SimU::instance(), m, (int)arg(o, 7) % 5);
      }
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  icl::shutdown();
  SIM_CHECK(open_sockets() == 0, "socket", "a socket is still open after the shutdown");
  std::map<std::string, int> index; std::vector<int> pos(msgs.size(), -1);
  for (size_t k = 0; k < msgs.size(); ++k) index[msgs[k]->text] = (int)k;
  for (size_t i = 0; i < net::sent.size(); ++i)
  {
    const net::Datagram& d = net::sent[i];
    SIM_CHECK(up && d.port == want_port[p.c(9) % 3] && d.host == addresses[first], "destination", "a datagram went to %s:%s", d.host.c_str(), d.port.c_str());
    std::vector<std::string> v; std::string kinds;
    SIM_CHECK(sql_values(d.data, v, kinds) && kinds == "ssnsssnssss", "syntax", "the datagram is no list of the eleven values: %.120s", d.data.c_str());
    SIM_CHECK(index.count(v[10]), "text", "a datagram carries the text '%.30s', which was never logged", v[10].c_str());
    int k = index[v[10]]; const Msg& m = *msgs[k];
    SIM_CHECK(pos[k] < 0, "duplicate", "message '%.20s' was sent twice", m.text.c_str());
    pos[k] = (int)i;
    SIM_CHECK(v[0] == systems[sys] && v[3] == m.level && v[4] == "SimU" && v[5] == m.file && v[6] == num(m.line) && v[7] == m.cls && v[8] == m.obj && v[9] == m.fn, "field", "message '%.20s' was sent with wrong fields: %.150s", m.text.c_str(), d.data.c_str());
    struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_isdst = -1;
    SIM_CHECK(strptime(v[1].c_str(), "%Y-%m-%d %H:%M:%S", &tm), "field", "a datagram carries the time %s", v[1].c_str());
    ns_t ts = (ns_t)mktime(&tm) * SEC + atoll(v[2].c_str());
    SIM_CHECK(ts >= m.r0 - US && ts <= m.r1, "field", "message '%.20s' was sent with the time %s,%s", m.text.c_str(), v[1].c_str(), v[2].c_str());
  }
  int missing = 0;
  for (size_t k = 0; k < msgs.size(); ++k) missing += pos[k] < 0;
  if (up) SIM_CHECK(missing <= fired(FT_SEND_ERR), "lost", "%d of %zu messages were not sent although sending failed %d times", missing, msgs.size(), fired(FT_SEND_ERR));
  else SIM_CHECK(net::sent.empty(), "destination", "something was sent although no address can be reached");
  for (size_t a = 0; a < msgs.size(); ++a)
    for (size_t b = 0; b < msgs.size(); ++b)
      if (msgs[a]->to < msgs[b]->from && pos[a] >= 0 && pos[b] >= 0) SIM_CHECK(pos[a] < pos[b], "order", "a message logged before another one was sent after it");
}
SIM_SCENARIO_LONG(C20, udp, gen_udp, run_udp, 35000, 120);
