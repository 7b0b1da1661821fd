// C33: every scheduled job runs exactly once and waiting is sound.
// Monitor reasoning: the queue's state belongs to its mutex. A thread that takes the mutex finds the state arbitrary but for
// the invariant
//     activeThreads_ = number of jobs taken from the queue and not finished (by any thread), a stop is never taken back;
// a thread that gives the mutex up (also by waiting) must have kept the invariant and changed nothing but what its method is for.
// Every thread is verified on its own against arbitrary behaviour of all others, so for all schedules and numbers of threads.
// Whoever makes true what others wait for must notify them: in the same critical section or after it, before it blocks or returns.
// A thread may wait only while what it waits for is false. Together: no wake-up is lost.
// The deque of the queue is replaced by a sequence of any length (contracts of std::deque, bound below).
#include <cstdio>
#include <deque>
#include <set>
#include <string>
#include <vector>
#include <boost/thread/future.hpp>
#include <boost/thread.hpp>
#include <boost/thread/condition.hpp>
#define protected public
#define private public
#include <sm/boost/JobQueue.hpp>
#undef private
#undef protected
#include "contract.hpp"
using sm::JobQueue;

#ifndef VF_NATIVE
enum { JOBS = 24 };
typedef boost::function<void()> Function;
typedef std::deque<Function> Deque;
// The queue is a sequence of any length: n jobs tagged base, base+1, ..., of which `popped` have been taken, and `added` behind them
struct State { int n, base, popped, added, tag[4]; int active; bool kill; };
enum Role { WORKER, SCHEDULER, WAITER, STOPPER, JOINER, OBSERVER };
static struct {
  JobQueue *q;
  Role role;
  bool held, arbitrary;
  State s;                     // at the start of the critical section
  State out;                   // what is to be found without the mutex (arbitrary, and must stay as it is)
  int others;                  // jobs running in other threads
  int next;                    // tag of the next job of others
  int executed[JOBS];
  int taken;                   // tag of the job this thread took, 0: none
  bool ran;                    // it has been run
  bool kill_seen, killed, scheduled, sections;
  bool work, idle;             // owed: a notification of condition_ (workCondition_)
  bool work_all;
  bool told_work, told_work_all, told_idle;  // in the present critical section
  int waits, runs, created, joined;
  bool empty_at_last, stopped_at_last;
  int inspect;
} g;
struct Job {
  int tag;
  void operator()() const {
    if (g.inspect) { g.inspect = tag; return; }
    vf_requires(!g.held, "jobs run without the mutex");
    vf_requires(!g.work && !g.idle, "the others have been notified before a job is run");
    vf_requires(tag == g.taken, "the job run is the one taken from the queue");
    vf_requires(!g.ran, "a job is run once");
    ++g.executed[tag];
    g.ran = true;
  }
};
static int tag_of(const boost::function<void()> &f) { if (f.empty()) return 0; g.inspect = -1; f(); int t = g.inspect; g.inspect = 0; return t; }
static State ghost;
static Function slots[8];
static int length(const State &s) { return s.n - s.popped + s.added; }
static int tag_at(int i) {   // i: position, as far as it is known to the section
  int k = ghost.popped + i;
  if (k < ghost.n) return ghost.base + k;
  return ghost.tag[k - ghost.n];
}
static void mine(const Deque *d) {
  vf_requires(d == &g.q->q_, "the queue");
  vf_requires(g.held, "the queue is looked at and changed only with the mutex held");
}
static bool d_empty(const Deque *d) { mine(d); return length(ghost) == 0; }
static unsigned long d_size(const Deque *d) { mine(d); return (unsigned long)length(ghost); }
static Function &d_front(Deque *d) {
  mine(d);
  vf_requires(length(ghost) > 0, "the front of a queue that is not empty");
  Job j = {tag_at(0)};
  slots[ghost.popped & 3] = j;
  return slots[ghost.popped & 3];
}
static Function &d_at(Deque *d, unsigned long i) {
  mine(d);
  vf_requires(long(i) < long(length(ghost)), "an element of the queue");
  Job j = {tag_at(int(i))};
  slots[4] = j;
  return slots[4];
}
static Function &d_back(Deque *d) {
  mine(d);
  vf_requires(length(ghost) > 0, "the back of a queue that is not empty");
  Job j = {ghost.added ? ghost.tag[ghost.added - 1] : ghost.base + (ghost.n == ghost.popped + 1 ? ghost.popped : 3)};
  slots[5] = j;
  return slots[5];
}
static void d_pop_front(Deque *d) {
  mine(d);
  vf_requires(length(ghost) > 0, "a job is taken from a queue that is not empty");
  ++ghost.popped;
  vf_requires(ghost.popped <= 3, "jobs are taken one by one");
}
static void d_pop_back(Deque *d) {
  mine(d);
  vf_requires(ghost.added > 0, "the job queued last is not taken back");
  --ghost.added;
}
static void d_add(Deque *d, const Function &f) {
  mine(d);
  vf_requires(ghost.added < 3, "jobs are added one by one");
  ghost.tag[ghost.added++] = tag_of(f);
}
static void d_add_moved(Deque *d, Function &&f) { d_add(d, f); f.clear(); }
static void d_push_front(Deque *d, const Function &) { mine(d); vf_requires(false, "jobs are queued behind the others"); }
static void d_clear(Deque *d) { mine(d); ghost.n = ghost.added = ghost.popped = 0; }
static State look() {
  State s = ghost;
  s.active = g.q->activeThreads_;
  s.kill = g.q->killWorkers_;
  return s;
}
static bool same(const State &a, const State &b) {
  return a.base == b.base && a.popped == b.popped && a.added == b.added && a.n == b.n && a.kill == b.kill && a.active == b.active;
}
static void put(const State &s) {
  ghost = s;
  g.q->activeThreads_ = s.active;
  g.q->killWorkers_ = s.kill;
}
static State any_state(const char *what) {
  State s;
  s.n = int32_t(vf_bits(what, 32));
  vf_assume(s.n >= 0 && s.n < 1000000);
  s.base = g.next; g.next += 4;
  s.popped = s.added = 0;
  s.kill = g.kill_seen || (g.held ? vf_bool("stopped") : vf_bits("stop seen without the mutex", 1) != 0);
  int32_t a = int32_t(vf_bits("running in other threads", 32));
  vf_assume(a >= 0 && a < 1000000);
  s.active = a;
  return s;
}
static void acquire() {
  vf_requires(!g.held, "the mutex is not taken twice");
  if (g.arbitrary) vf_requires(same(look(), g.out), "the state of the queue is changed only with the mutex held");
  g.held = g.arbitrary = true;
  g.told_work = g.told_work_all = g.told_idle = false;
  g.s = any_state("jobs in the queue");
  g.others = g.s.active;
  g.s.active += g.taken ? 1 : 0;
  if (g.s.kill) g.kill_seen = true;
  put(g.s);
}
static void release() {
  vf_requires(g.held, "a mutex given up was held");
  State s = look();
  // the queue
  if (g.role == WORKER) {
    vf_requires(s.popped <= 1 && s.added == 0, "a worker takes one job at a time, the one queued first");
    if (g.taken && g.ran) { g.taken = 0; g.ran = false; }
    if (s.popped == 1) {
      vf_requires(!g.taken, "a worker takes a job when it has none");
      vf_requires(!g.s.kill, "no job is started after a stop");
      vf_assume(++g.runs <= 2);   // from here on everything is as after the first job: the state of the queue is arbitrary
      g.taken = s.base;
    }
  } else if (g.role == SCHEDULER && s.added > 0) {
    vf_requires(!g.scheduled && s.added == 1 && s.tag[0] == 1 && s.popped == 0, "the job given is queued behind all others, once");
    g.scheduled = true;
    if (!g.told_work) g.work = true;
  } else vf_requires(s.popped == 0 && s.added == 0, "only workers take jobs, only scheduling adds jobs");
  vf_requires(s.base == g.s.base && s.n == g.s.n, "the other jobs stay in the queue");
  // running jobs
  vf_requires(s.active == g.others + (g.taken ? 1 : 0), "the number of running jobs is the number taken and not finished");
  // stop
  if (g.role == STOPPER || g.role == JOINER) {
    vf_requires(s.kill || !g.s.kill, "a stop is not taken back");
    if (s.kill) g.killed = g.kill_seen = true;
    if (s.kill && !g.s.kill && !g.told_work_all) g.work = g.work_all = true;
  } else vf_requires(s.kill == g.s.kill, "only stopping stops");
  bool was_idle = length(g.s) == 0 && g.s.active == 0, is_idle = length(s) == 0 && s.active == 0;
  if (is_idle && !was_idle && !g.told_idle) g.idle = true;
  g.empty_at_last = is_idle;
  g.stopped_at_last = s.kill;
  g.sections = true;
  g.held = false;
  g.out = any_state("state seen without the mutex");
  put(g.out);
}
static void spec_lock(boost::mutex *m) { vf_requires(m == &g.q->mutex_, "the queue's mutex"); acquire(); }
static void spec_unlock(boost::mutex *m) { vf_requires(m == &g.q->mutex_, "the queue's mutex"); release(); }
static void spec_wait(boost::condition_variable_any *c, boost::unique_lock<boost::mutex> &l) {
  vf_requires(g.held && l.owns_lock() && l.mutex() == &g.q->mutex_, "the mutex is held when waiting");
  vf_requires(g.role == WORKER || g.role == WAITER, "only workers and those who wait for the empty queue wait");
  if (g.role == WORKER) {
    vf_requires(c == &g.q->condition_, "a worker waits for jobs");
    vf_requires(length(ghost) == 0 && !g.q->killWorkers_, "a worker waits only while there is neither a job nor a stop");
  } else {
    vf_requires(c == &g.q->workCondition_, "one waits for the end of jobs");
    vf_requires(length(ghost) != 0 || g.q->activeThreads_ != 0, "one waits only while jobs are queued or running");
  }
  release();
  vf_requires(!g.work && !g.idle, "the others have been notified before waiting");
  vf_assume(++g.waits <= 2);   // from here on everything is as after the first wait: the state of the queue is arbitrary
  acquire();
}
static void notify(boost::condition_variable_any *c, bool all) {
  if (c == &g.q->condition_) {
    g.told_work = true;
    if (all) g.told_work_all = true;
    if (!g.held && (all || !g.work_all)) g.work = g.work_all = false;
  } else if (c == &g.q->workCondition_) {
    if (all) g.told_idle = true;
    if (!g.held && all) g.idle = false;
  }
}
static void spec_notify_all(boost::condition_variable_any *c) { notify(c, true); }
static void spec_notify_one(boost::condition_variable_any *c) { notify(c, false); }
static void spec_join_all(boost::thread_group *t) {
  vf_requires(t != 0 && t == g.q->work_.get(), "the threads joined are those of the queue");
  vf_requires(!g.held, "the mutex is not held while joining");
  vf_requires(g.killed, "the workers have been told to stop before they are joined");
  vf_requires(!g.work && !g.idle, "the workers have been notified before they are joined");
  ++g.joined;
}
// called by the verifier's model of boost::thread_group::create_thread
extern "C" void vf_thread_created(boost::thread_group *t) { vf_requires(t == g.q->work_.get(), "the threads are those of the queue"); ++g.created; }
extern "C" void vf_bindings() {
  vf_bind(vf_m(&Deque::empty), vf_p(&d_empty));
  vf_bind(vf_m(&Deque::size), vf_p(&d_size));
  vf_bind(vf_m(static_cast<Function &(Deque::*)()>(&Deque::front)), vf_p(&d_front));
  vf_bind(vf_m(static_cast<const Function &(Deque::*)() const>(&Deque::front)), vf_p(&d_front));
  vf_bind(vf_m(static_cast<Function &(Deque::*)()>(&Deque::back)), vf_p(&d_back));
  vf_bind(vf_m(static_cast<Function &(Deque::*)(std::size_t)>(&Deque::operator[])), vf_p(&d_at));
  vf_bind(vf_m(static_cast<Function &(Deque::*)(std::size_t)>(&Deque::at)), vf_p(&d_at));
  vf_bind(vf_m(&Deque::pop_front), vf_p(&d_pop_front));
  vf_bind(vf_m(&Deque::pop_back), vf_p(&d_pop_back));
  vf_bind(vf_m(static_cast<void (Deque::*)(const Function &)>(&Deque::push_back)), vf_p(&d_add));
  vf_bind(vf_m(static_cast<void (Deque::*)(Function &&)>(&Deque::push_back)), vf_p(&d_add_moved));
  vf_bind(vf_m(&Deque::emplace_back<const Function &>), vf_p(&d_add));
  vf_bind(vf_m(&Deque::emplace_back<Function>), vf_p(&d_add_moved));
  vf_bind(vf_m(static_cast<void (Deque::*)(const Function &)>(&Deque::push_front)), vf_p(&d_push_front));
  vf_bind(vf_m(&Deque::clear), vf_p(&d_clear));
  vf_bind(vf_m(&boost::mutex::lock), vf_p(&spec_lock));
  vf_bind(vf_m(&boost::mutex::unlock), vf_p(&spec_unlock));
  vf_bind(vf_m(&boost::condition_variable_any::wait<boost::unique_lock<boost::mutex> >), vf_p(&spec_wait));
  vf_bind(vf_m(&boost::condition_variable_any::notify_all), vf_p(&spec_notify_all));
  vf_bind(vf_m(&boost::condition_variable_any::notify_one), vf_p(&spec_notify_one));
  vf_bind(vf_m(&boost::thread_group::join_all), vf_p(&spec_join_all));
}
static void begin(JobQueue &q, Role r) {
  g.q = &q; g.role = r; g.held = false; g.arbitrary = true; g.next = 2;
  g.out = any_state("state seen without the mutex");
  put(g.out);
}
static void end() {
  vf_check(!g.held, "the mutex is given up");
  vf_check(same(look(), g.out), "the state of the queue is changed only with the mutex held");
  vf_check(!g.work && !g.idle, "the others have been notified");
}
struct Queue { JobQueue q; ~Queue() {} };
union Storage { JobQueue q; Storage() { new (&q) JobQueue(); } ~Storage() {} };   // not destroyed

VF_CHECK(C33, a_worker) {
  Storage s;
  begin(s.q, WORKER);
  s.q.exec_loop();
  end();
  vf_check(g.stopped_at_last, "a worker leaves only after a stop");
  vf_check(!g.taken, "no job is dropped");
}
VF_CHECK(C33, scheduling) {
  Storage s;
  begin(s.q, SCHEDULER);
  Job j = {1};
  s.q.scheduleWork(j);
  end();
  vf_check(g.scheduled, "the job is in the queue");
}
VF_CHECK(C33, waiting) {
  Storage s;
  begin(s.q, WAITER);
  s.q.waitForEmptyQueue();
  end();
  vf_check(g.sections && g.empty_at_last, "no job is queued or running when waiting ends");
}
VF_CHECK(C33, is_empty) {
  Storage s;
  begin(s.q, OBSERVER);
  bool e = s.q.empty();
  end();
  vf_check(g.sections, "the state is looked at with the mutex held");
  vf_check(e == (length(g.s) == 0), "empty exactly when no job is queued");
}
VF_CHECK(C33, stopping) {
  Storage s;
  begin(s.q, STOPPER);
  s.q.stop();
  end();
  vf_check(g.killed, "stopped");
  vf_check(g.joined == 0, "stopping does not wait");
}
VF_CHECK(C33, joining) {
  Storage s;
  bool started = vf_bool("started");
  if (started) s.q.work_.reset(new boost::thread_group);
  begin(s.q, JOINER);
  s.q.join();
  end();
  vf_check(g.killed, "stopped");
  vf_check(!started || g.joined > 0, "all workers are joined");
}
VF_CHECK(C33, destroying) {
  Storage s;
  bool started = vf_bool("started");
  if (started) s.q.work_.reset(new boost::thread_group);
  begin(s.q, JOINER);
  boost::shared_ptr<boost::thread_group> w = s.q.work_;
  s.q.~JobQueue();
  vf_check(!g.held, "the mutex is given up");
  vf_check(!started || g.killed, "stopped");
  vf_check(!started || g.joined > 0, "no worker is left when the queue is gone");
}
VF_CHECK(C33, starting) {
  Storage s;
  begin(s.q, OBSERVER);
  int n = vf_choice("threads", 4);
  s.q.start(n);
  vf_check(g.created == n, "as many workers as asked for");
  s.q.start(n);
  end();
  vf_check(g.created == n, "started once");
}
#endif

#ifdef VF_NATIVE
#include <atomic>
#include <boost/bind.hpp>
// the real queue with real threads; a scenario that does not end within half a minute does not terminate
struct Scenario {
  boost::mutex m;
  boost::condition_variable c;
  bool done = false;
};
template <class F> static bool ends(F f) {
  boost::shared_ptr<Scenario> s(new Scenario);
  boost::thread t([s, f]() { f(); boost::mutex::scoped_lock l(s->m); s->done = true; s->c.notify_all(); });
  boost::mutex::scoped_lock l(s->m);
  boost::system_time until = boost::get_system_time() + boost::posix_time::seconds(30);
  while (!s->done) if (!s->c.timed_wait(l, until)) break;
  bool d = s->done;
  l.unlock();
  if (d) t.join(); else t.detach();
  return d;
}
struct Log {
  boost::mutex m;
  std::vector<int> order;
  void add(int i) { boost::mutex::scoped_lock l(m); order.push_back(i); }
};
static void spin(int n) { for (volatile int i = 0; i < n; ++i) {} }
VF_CHECK(C33, every_job_once) {
  int threads = 1 + vf_count("threads", 4, 20), jobs = vf_count("jobs", 20, 400), work = vf_choice("work", 3) * 300, how = vf_choice("end", 4);
  bool early = vf_bool("scheduled before the start");
  boost::shared_ptr<Log> log(new Log);
  boost::shared_ptr<std::atomic<int> > at_wait(new std::atomic<int>(-1)), queued(new std::atomic<int>(-1));
  bool ok = ends([=]() {
    JobQueue *q = new JobQueue;
    if (!early) q->start(threads);
    for (int i = 0; i < jobs; ++i) q->scheduleWork([=]() { spin(work); log->add(i); });
    if (early) { *queued = q->empty() ? 0 : 1; q->start(threads); }
    q->waitForEmptyQueue();
    { boost::mutex::scoped_lock l(log->m); *at_wait = int(log->order.size()); }
    if (how & 1) q->stop();
    if (how & 2) q->join();
    delete q;
  });
  vf_check(ok, "waiting, stopping, joining and destroying terminate");
  if (!ok) return;
  vf_check(*at_wait == jobs, "all jobs have finished when waiting ends");
  if (early) vf_check(*queued == (jobs > 0), "empty exactly when no job is queued");
  std::set<int> seen(log->order.begin(), log->order.end());
  vf_check(int(log->order.size()) == jobs && int(seen.size()) == jobs, "every job runs exactly once");
  if (threads == 1) for (size_t i = 0; i < log->order.size(); ++i) vf_check(log->order[i] == int(i), "in the order of scheduling");
}
VF_CHECK(C33, ends_at_any_time) {
  int threads = vf_choice("threads", 4), jobs = vf_choice("jobs", 4), pause = vf_choice("pause", 4) * 2000, how = vf_choice("end", 5);
  boost::shared_ptr<Log> log(new Log);
  bool ok = ends([=]() {
    JobQueue *q = new JobQueue;
    if (threads) q->start(threads);
    for (int i = 0; i < jobs; ++i) q->scheduleWork([=]() { log->add(i); });
    spin(pause);
    if (how == 1) q->stop();
    if (how == 2) q->join();
    if (how == 3) { q->stop(); q->join(); }
    if (how == 4) { q->join(); q->join(); }
    delete q;
  });
  vf_check(ok, "stopping, joining and destroying terminate");
  if (!ok) return;
  std::set<int> seen(log->order.begin(), log->order.end());
  vf_check(seen.size() == log->order.size(), "no job runs twice");
}
VF_CHECK(C33, no_job_after_a_stop) {
  int threads = 1 + vf_choice("threads", 3);
  boost::shared_ptr<std::atomic<int> > ran(new std::atomic<int>(0)), at_join(new std::atomic<int>(0));
  bool ok = ends([=]() {
    JobQueue *q = new JobQueue;
    q->start(threads);
    q->join();
    *at_join = ran->load();
    for (int i = 0; i < 3; ++i) q->scheduleWork([=]() { ++*ran; });
    spin(3000);
    delete q;
  });
  vf_check(ok, "joining and destroying terminate");
  if (ok) vf_check(*ran == 0, "no job is started after a stop");
}
VF_CHECK(C33, futures) {
  int threads = 1 + vf_choice("threads", 3), n = 1 + vf_choice("futures", 5);
  boost::shared_ptr<std::vector<int> > got(new std::vector<int>(n, -1));
  bool ok = ends([=]() {
    JobQueue q;
    q.start(threads);
    std::vector<boost::shared_ptr<boost::unique_future<int> > > f;
    for (int i = 0; i < n; ++i) { f.push_back(boost::shared_ptr<boost::unique_future<int> >(new boost::unique_future<int>)); q.scheduleFuture<int>([=]() { return 7 * i; }, *f[i]); }
    for (int i = 0; i < n; ++i) (*got)[i] = f[i]->get();
  });
  vf_check(ok, "futures become ready");
  if (ok) for (int i = 0; i < n; ++i) vf_check((*got)[i] == 7 * i, "the value of the future");
}
#endif
