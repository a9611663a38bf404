// Model of the parts of TBB that mlio uses, for symbolic execution: every task
// of a flow graph is put into one list, from which wait_for_all() takes them.
// With "tbb_order" set, which task comes next is a symbolic choice; with
// "tbb_workers" set to n > 1, n threads of the executor's scheduler take them.
#pragma once

#include <cstddef>
#include <cstdint>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <tuple>
#include <utility>
#include <vector>

#include "harness/mlse.h"
#include "tbb/iterators.h"

namespace tbb {

struct split {};
struct auto_partitioner {};
struct simple_partitioner {};
struct static_partitioner {};

template<typename It>
class blocked_range {
public:
    using const_iterator = It;
    blocked_range(It b, It e, std::size_t = 1) : b_{b}, e_{e} {}
    It begin() const { return b_; }
    It end() const { return e_; }
    std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
    bool empty() const { return !(b_ < e_); }

private:
    It b_, e_;
};

class task_group_context {
public:
    bool cancel_group_execution()
    {
        mlse_yield();
        bool first = !cancelled_;
        cancelled_ = true;
        return first;
    }
    bool is_group_execution_cancelled() const { return cancelled_; }
    void reset() { cancelled_ = false; }

private:
    bool cancelled_ = false;
};

// The range is cut at a symbolic point ("pfor_split"), and the parts run in
// either order.
template<typename It, typename Body, typename... P>
void parallel_for(const blocked_range<It> &r, const Body &body, P &&...)
{
    if (r.empty())
        return;
    if (!mlse_param("pfor_split", 0)) {
        auto c = r;
        body(c);
        return;
    }
    std::size_t m = pick("pfor_split", 0, r.size() - 1);
    bool swap = m != 0 && sym_bool("pfor_swap");
    for (int i = 0; i < 2; i++) {
        bool first = (i == 0) != swap;
        blocked_range<It> part{first ? r.begin() : r.begin() + static_cast<std::ptrdiff_t>(m),
                               first ? r.begin() + static_cast<std::ptrdiff_t>(m) : r.end()};
        if (!part.empty())
            body(part);
    }
}

template<typename It, typename Body>
void parallel_for_each(It b, It e, const Body &body)
{
    for (; b != e; ++b)
        body(*b);
}

struct task_scheduler_init {
    static int default_num_threads() { return static_cast<int>(mlse_param("tbb_threads", 2)); }
};

namespace flow {

class graph;

class continue_msg {};

class graph_node {
public:
    explicit graph_node(graph &g);
    virtual ~graph_node();
    virtual void reset_node() {}

protected:
    graph &g_;
};

class graph {
public:
    graph() : ctx_{&own_} {}
    explicit graph(task_group_context &c) : ctx_{&c} {}
    ~graph() { wait_for_all(); }
    graph(const graph &) = delete;
    graph &operator=(const graph &) = delete;

    void spawn(std::function<void()> f)
    {
        tasks_.push_back(std::move(f));
        idle_ = 0;
    }

    void wait_for_all()
    {
        cancelled_ = caught_ = false;
        if (!tasks_.empty()) {
            long n = mlse_param("tbb_workers", 1);
            std::vector<std::uint32_t> done(static_cast<std::size_t>(n), 0);
            std::vector<std::pair<graph *, std::uint32_t *>> args;
            for (long i = 1; i < n; i++)
                args.push_back({this, &done[static_cast<std::size_t>(i)]});
            for (auto &a : args)
                mlse_thread_create(&graph::worker, &a);
            work();
            for (auto &a : args)
                mlse_await(a.second, 1);
        }
        cancelled_ = ctx_->is_group_execution_cancelled();
        ctx_->reset();
        if (exc_) {
            caught_ = cancelled_ = true;
            std::exception_ptr e;
            std::swap(e, exc_);
            std::rethrow_exception(e);
        }
    }

    void reset()
    {
        ctx_->reset();
        cancelled_ = caught_ = false;
        tasks_.clear();
        for (auto *n : nodes_)
            n->reset_node();
    }
    void cancel() { ctx_->cancel_group_execution(); }
    bool is_cancelled() const { return cancelled_; }
    bool exception_thrown() const { return caught_; }

    std::vector<graph_node *> nodes_;

private:
    static void *worker(void *p)
    {
        auto *a = static_cast<std::pair<graph *, std::uint32_t *> *>(p);
        a->first->work();
        *a->second = 1;
        return nullptr;
    }

    void work()
    {
        static const long order = mlse_param("tbb_order", 0);
        for (;;) {
            if (ctx_->is_group_execution_cancelled())
                tasks_.clear();
            if (tasks_.empty()) {
                if (active_ == 0)
                    break;
                idle_ = 1;
                mlse_await(&idle_, 0);
                continue;
            }
            std::size_t i = 0;
            if (order && tasks_.size() > 1)
                i = pick("task", 0, tasks_.size() - 1);
            std::function<void()> t = std::move(tasks_[i]);
            tasks_.erase(tasks_.begin() + static_cast<std::ptrdiff_t>(i));
            active_++;
            mlse_yield();
            try {
                t();
            }
            catch (...) {
                if (!exc_)
                    exc_ = std::current_exception();
                ctx_->cancel_group_execution();
            }
            t = nullptr;
            active_--;
            idle_ = 0;
        }
        idle_ = 0;
    }

    task_group_context own_{};
    task_group_context *ctx_;
    std::deque<std::function<void()>> tasks_;
    std::size_t active_ = 0;
    std::uint32_t idle_ = 0;
    std::exception_ptr exc_;
    bool cancelled_ = false, caught_ = false;
};

inline graph_node::graph_node(graph &g) : g_{g} { g.nodes_.push_back(this); }
inline graph_node::~graph_node()
{
    for (auto i = g_.nodes_.begin(); i != g_.nodes_.end(); ++i)
        if (*i == this) {
            g_.nodes_.erase(i);
            break;
        }
}

template<typename T>
class receiver {
public:
    virtual ~receiver() = default;
    virtual bool try_put(const T &v) = 0;
};

// A sender keeps a message its receiver refuses; the receiver asks for it later.
template<typename T>
class sender {
public:
    virtual ~sender() = default;
    virtual bool try_get(T &) { return false; }
    receiver<T> *succ = nullptr;
    virtual void linked(receiver<T> &r) { succ = &r; }
};

template<typename Output>
class source_node : public graph_node, public sender<Output> {
public:
    template<typename Body>
    source_node(graph &g, Body body, bool is_active = true) : graph_node{g}, body_{std::move(body)}, init_active_{is_active}
    {
        if (is_active)
            activate();
    }
    void activate()
    {
        active_ = true;
        schedule();
    }
    void reset_node() override
    {
        active_ = init_active_;
        has_ = false;
        pending_ = false;
        cached_ = Output{};
        if (active_)
            schedule();
    }
    bool try_get(Output &v) override
    {
        if (!has_)
            return false;
        v = std::move(cached_);
        cached_ = Output{};
        has_ = false;
        schedule();
        return true;
    }

private:
    void schedule()
    {
        if (!active_ || pending_ || has_)
            return;
        pending_ = true;
        this->g_.spawn([this] { run(); });
    }
    void run()
    {
        struct Guard {
            bool &b;
            ~Guard() { b = false; }
        };
        {
            Output out{};
            {
                if (!body_(out)) {
                    pending_ = false;
                    return;
                }
            }
            pending_ = false;
            if (!this->succ || !this->succ->try_put(out)) {
                cached_ = std::move(out);
                has_ = true;
                return;
            }
        }
        schedule();
    }

    std::function<bool(Output &)> body_;
    bool init_active_;
    bool active_ = false, pending_ = false, has_ = false;
    Output cached_{};
};
template<typename Output>
using input_node = source_node<Output>;

template<typename T>
class limiter_node : public graph_node, public sender<T>, public receiver<T> {
    class Dec : public receiver<continue_msg> {
    public:
        explicit Dec(limiter_node &l) : l_{l} {}
        bool try_put(const continue_msg &) override
        {
            l_.dec();
            return true;
        }

    private:
        limiter_node &l_;
    };

public:
    limiter_node(graph &g, std::size_t threshold, int = 0) : graph_node{g}, decrement{*this}, threshold_{threshold} {}
    bool try_put(const T &v) override
    {
        if (count_ >= threshold_)
            return false;
        count_++;
        if (this->succ)
            this->succ->try_put(v);
        return true;
    }
    void reset_node() override { count_ = 0; }
    receiver<continue_msg> &decrementer() { return decrement; }

    Dec decrement;
    sender<T> *pred = nullptr;

private:
    void dec()
    {
        if (count_ > 0)
            count_--;
        T v{};
        if (pred && count_ < threshold_ && pred->try_get(v)) {
            count_++;
            if (this->succ)
                this->succ->try_put(v);
        }
    }

    std::size_t threshold_, count_ = 0;
};

constexpr std::size_t unlimited = 0;
constexpr std::size_t serial = 1;

// Up to `limit` bodies at a time; the rest of the messages waits in order.
template<typename Input>
class body_node : public graph_node, public receiver<Input> {
public:
    body_node(graph &g, std::size_t limit) : graph_node{g}, limit_{limit} {}
    bool try_put(const Input &v) override
    {
        queue_.push_back(v);
        pump();
        return true;
    }
    void reset_node() override
    {
        queue_.clear();
        running_ = 0;
    }

protected:
    virtual void call(const Input &v) = 0;

private:
    void pump()
    {
        while (!queue_.empty() && (limit_ == unlimited || running_ < limit_)) {
            Input v = std::move(queue_.front());
            queue_.pop_front();
            running_++;
            this->g_.spawn([this, v] {
                call(v);
                running_--;
                pump();
            });
        }
    }
    std::size_t limit_, running_ = 0;
    std::deque<Input> queue_;
};

template<typename T>
class output_sender : public sender<T> {
public:
    bool try_put(const T &v) { return this->succ != nullptr && this->succ->try_put(v); }
};

template<typename Input, typename Outputs>
class multifunction_node;

template<typename Input, typename... Out>
class multifunction_node<Input, std::tuple<Out...>> : public body_node<Input> {
public:
    using output_ports_type = std::tuple<output_sender<Out>...>;
    template<typename Body>
    multifunction_node(graph &g, std::size_t limit, Body body) : body_node<Input>{g, limit}, body_{std::move(body)}
    {}
    output_ports_type &output_ports() { return ports_; }

private:
    void call(const Input &v) override { body_(v, ports_); }
    std::function<void(const Input &, output_ports_type &)> body_;
    output_ports_type ports_;
};

template<std::size_t N, typename Node>
auto &output_port(Node &n)
{
    return std::get<N>(n.output_ports());
}

template<typename T>
class sequencer_node : public graph_node, public sender<T>, public receiver<T> {
public:
    template<typename S>
    sequencer_node(graph &g, const S &s) : graph_node{g}, seq_{s}
    {}
    bool try_put(const T &v) override
    {
        std::size_t i = seq_(v);
        if (i < next_)
            return false;
        buf_.emplace(i, v);
        while (!buf_.empty() && buf_.begin()->first == next_) {
            T m = buf_.begin()->second;
            buf_.erase(buf_.begin());
            next_++;
            if (this->succ)
                this->succ->try_put(m);
        }
        return true;
    }
    void reset_node() override
    {
        buf_.clear();
        next_ = 0;
    }

private:
    std::function<std::size_t(const T &)> seq_;
    std::map<std::size_t, T> buf_;
    std::size_t next_ = 0;
};

template<typename Input, typename Output = continue_msg>
class function_node : public body_node<Input>, public sender<Output> {
public:
    template<typename Body>
    function_node(graph &g, std::size_t limit, Body body) : body_node<Input>{g, limit}
    {
        body_ = [body = std::move(body)](const Input &v) mutable -> Output {
            if constexpr (std::is_void_v<decltype(body(v))>) {
                body(v);
                return Output{};
            }
            else
                return body(v);
        };
    }

private:
    void call(const Input &v) override
    {
        Output o = body_(v);
        if (this->succ)
            this->succ->try_put(o);
    }
    std::function<Output(const Input &)> body_;
};

template<typename T>
void make_edge(sender<T> &s, receiver<T> &r)
{
    s.linked(r);
    if (auto *l = dynamic_cast<limiter_node<T> *>(&r))
        l->pred = &s;
}

}  // namespace flow
}  // namespace tbb
