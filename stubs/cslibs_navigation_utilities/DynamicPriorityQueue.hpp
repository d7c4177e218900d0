// Stand-in for the priority queue of the (not installed) package cslibs_navigation_utilities.
// The queue is part of the environment: it is only promised that top() is an element for which the
// comparator ranks no other element strictly higher at the time of the call; which one among equals
// is the explorer's choice (verif_pick).
#ifndef VERIF_STUB_DPQ_HPP
#define VERIF_STUB_DPQ_HPP
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <deque>
#include <vector>

extern std::size_t verif_pick(std::size_t n);   // answer in [0,n)
extern int verif_queue_dedup;                   // 1: pushing an element already stored is a no-op

template <class T, class Compare>
class DynamicPrioritySet
{
public:
    typedef typename std::vector<T>::const_iterator const_iterator;
    typedef typename std::vector<T>::iterator iterator;
    void push(const T &t)
    {
        chosen_ = npos;
        if (verif_queue_dedup && std::find(v_.begin(), v_.end(), t) != v_.end()) return;
        v_.push_back(t);
    }
    void add(const T &t) { push(t); }
    const T &top() const { select(); return v_[chosen_]; }
    void pop() { select(); v_.erase(v_.begin() + chosen_); chosen_ = npos; }
    void remove(const T &t)
    {
        chosen_ = npos;
        typename std::vector<T>::iterator it = std::find(v_.begin(), v_.end(), t);
        if (it != v_.end()) v_.erase(it);
    }
    void erase(const T &t) { remove(t); }
    void clear() { v_.clear(); chosen_ = npos; }
    bool contains(const T &t) const { return std::find(v_.begin(), v_.end(), t) != v_.end(); }
    bool empty() const { return v_.empty(); }
    std::size_t size() const { return v_.size(); }
    const_iterator begin() const { return v_.begin(); }
    const_iterator end() const { return v_.end(); }
private:
    static const std::size_t npos = (std::size_t) -1;
    void select() const
    {
        assert(!v_.empty());
        // the comparator is a "lower priority" test: comp(a,b) means b goes first
        if (chosen_ != npos && chosen_ < v_.size()) {
            bool still = true;
            for (std::size_t i = 0; i < v_.size() && still; ++i) if (comp_(v_[chosen_], v_[i])) still = false;
            if (still) return;
        }
        std::size_t best = 0;
        for (std::size_t i = 1; i < v_.size(); ++i) if (comp_(v_[best], v_[i])) best = i;
        std::vector<std::size_t> c;
        for (std::size_t i = 0; i < v_.size(); ++i)
            if (!comp_(v_[i], v_[best]) && !comp_(v_[best], v_[i])) c.push_back(i);
        chosen_ = c.size() > 1 ? c[verif_pick(c.size())] : best;
    }
    std::vector<T> v_;
    mutable std::size_t chosen_ = (std::size_t) -1;
    mutable Compare comp_;
};

template <class T, class Container, class Compare>
class DynamicPriorityQueue : public DynamicPrioritySet<T, Compare> {};
#endif
