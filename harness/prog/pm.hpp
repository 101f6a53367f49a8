// Random task programs, the reference model of their execution, and the online monitor.
// This part knows nothing about redGrapes: it states independently what may and what must happen.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace pm
{
    enum Mode : uint8_t
    {
        WRITE,
        READ,
        AADD,
        AMUL
    };

    constexpr uint32_t INF = 0xffffffffu;
    constexpr int EXTENT1 = 16; // 1-d fields
    constexpr int EXTENT2 = 4; // 2-d fields, per dimension

    struct Acc
    {
        int res = 0;
        Mode mode = WRITE;
        int dims = 0; // 0: plain I/O resource
        uint32_t lo[2] = {0, 0};
        uint32_t hi[2] = {INF, INF};
        bool same(Acc const& o) const;
    };

    bool conflict(Acc const& a, Acc const& b);
    bool covers(Acc const& a, Acc const& b);
    bool conflict(std::vector<Acc> const& a, std::vector<Acc> const& b);

    enum class Act : uint8_t
    {
        SPAWN, // x: task, y: what to do with its future (Fut)
        GET, // x: task whose future is held here
        DROP, // x: same
        READY, // x: same
        TOUCH, // x: index into the accesses of the task (by position in patch[0])
        EVENT, // x: event
        NOTIFY, // x: event
        YIELD, // x: event
        DEMOTE, // rm / add
        BADUPD, // add: an access that extends the task's; has to be refused
        BARRIER, // root only
        INTROSPECT,
        NOEVENT, // root: create_event() outside of a task
    };

    enum class Fut : uint8_t
    {
        DROP, // destroyed right away
        HOLD, // kept by the creator
        GIVE, // moved into the closure of a later task (y2)
    };

    struct Action
    {
        Act act = Act::TOUCH;
        int x = 0;
        Fut fut = Fut::DROP;
        std::vector<Acc> rm, add;
    };

    struct TaskSpec
    {
        int id = 0;
        int parent = -1; // index of the creating task, 0 = root
        int depth = 0; // 0 for tasks created outside of tasks
        std::vector<Acc> acc;
        int style = 0; // how the accesses are declared
        int result = 0; // 0 void, 1 int, 2 string
        int pad = 0; // size class of the closure
        bool ss = false; // stack switching
        std::vector<Action> body;
        std::vector<int> local_res; // resources constructed in this task
        std::vector<int> given; // futures passed in the closure
    };

    struct ResSpec
    {
        int dims = 0;
        int owner = 0; // task that constructs it (0: root)
    };

    struct EventSpec
    {
        int creator = 0;
        int by = 0; // 0: external, otherwise the task that notifies it
        int waiters = 0; // number of YIELD actions on it
        bool eager = false; // external: notified without waiting for quiescence
    };

    struct Program
    {
        std::vector<TaskSpec> tasks; // [0] is the code outside of tasks
        std::vector<ResSpec> res;
        std::vector<EventSpec> events;
        int workers = 1;
        uint64_t seed = 0;
        bool finalize_direct = false; // go to finalize() without waiting for the tasks first
        bool controller = true;
        std::string describe() const;
    };

    // knobs, probabilities in percent
    struct Profile
    {
        char const* name = "mixed";
        int min_tasks = 3, max_tasks = 24;
        int max_depth = 3;
        int max_res = 4;
        int p_field = 30;
        int p_multi = 40; // further access
        int p_same_res = 10; // several accesses to the same resource
        int p_noacc = 10; // no access at all
        int p_ss = 40;
        int p_child = 35; // body action: spawn a child
        int p_event = 15;
        int p_get = 15;
        int p_yield = 12;
        int p_demote = 0;
        int p_badupd = 0;
        int p_barrier = 10;
        int p_introspect = 5;
        int p_give = 5;
        int p_local = 15;
        int p_eager = 30;
        int p_write = 45;
        int p_direct = 15;
        int p_nosched = 0;
        int max_workers = 5;
        int big_pad = 10;
        int many_readers = 0; // probability of a wide fan-out of readers between writers
        int p_ready = 6;
    };

    Profile const* find_profile(std::string const&);
    Program generate(uint64_t seed, Profile const&);

    // ------------------------------------------------------------------ monitor

    struct Stats
    {
        uint64_t programs = 0, tasks = 0, children = 0, max_depth = 0;
        uint64_t order_checks = 0; // pairs of conflicting siblings whose order was checked
        uint64_t overlaps = 0; // begins of a task while some earlier sibling was unfinished
        uint64_t quiescent = 0; // quiescent states compared with the model
        uint64_t blocked_seen = 0; // tasks that the model says must wait, at quiescent states
        uint64_t events = 0, ext_notify = 0, waits = 0, suspended = 0, migrated = 0;
        uint64_t gets = 0, ready_true = 0, ready_false = 0, drops = 0, gives = 0;
        uint64_t demotions = 0, refused = 0, released = 0, held = 0;
        uint64_t barriers = 0, introspections = 0, touches = 0, trackers = 0;
        uint64_t distinct_programs = 0;
    };

    extern Stats stats;

    void count(uint64_t&);
    void run_begin(Program const&, bool controlled);
    void run_end(); // final checks

    void on_submit(int parent, int task); // before the task is handed over
    void on_begin(int task, int worker);
    void on_end(int task);
    void on_step(int task); // action completed
    void on_event_created(int ev);
    void on_notify(int ev); // before notify is called
    bool event_created(int ev);
    bool event_notified(int ev);
    void on_wait(int task, int worker, bool on_event, int what); // before yield / get
    void on_wait_done(int task, int worker, bool on_event, int what);
    void on_demote(int task, std::vector<Acc> const& rm, std::vector<Acc> const& add); // before the call
    void on_refused(int task);
    void on_ready(int task, bool ready);
    void on_result(int task, bool value_ok);
    void on_release(int task); // future released (dropped or taken)
    void on_barrier_return();
    void on_finalized();
    void tracker_born(int task);
    void tracker_died(int task);
    void on_task_id(int task, uint64_t id);
    uint64_t task_id(int task);

    //! compare the observed state with the model; called when nothing can run.
    void check_quiescent();
    bool all_done();
    //! an event that is created, external and not yet notified, chosen by r; -1 if there is none
    int pick_withheld(uint64_t r, bool eager_only);

    void violation(char const* cls, std::string const& text);
    extern void (*on_violation)(char const* cls, char const* text);
} // namespace pm
