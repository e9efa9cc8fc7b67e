#ifndef VERIF_SHIM_INTRUSIVE_LIST_H
#define VERIF_SHIM_INTRUSIVE_LIST_H
#include <cstddef>
#include <iterator>
#include <type_traits>
#include "score/assert.hpp"
namespace score::containers
{
struct default_intrusive_list_tag
{
};
template <class Tag = default_intrusive_list_tag>
class intrusive_list_element;
template <class T, class Tag = default_intrusive_list_tag>
class intrusive_list;
template <class Tag>
class intrusive_list_element
{
  public:
    intrusive_list_element() noexcept = default;
    intrusive_list_element(const intrusive_list_element&) = delete;
    intrusive_list_element& operator=(const intrusive_list_element&) = delete;

  protected:
    ~intrusive_list_element() = default;

  private:
    template <class T, class U>
    friend class intrusive_list;
    intrusive_list_element* next_{nullptr};
    intrusive_list_element* prev_{nullptr};
};
// Doubly linked ring around a sentinel. A link of an element that is linked already is a contract violation (the
// original leaves it undefined).
template <class T, class Tag>
class intrusive_list
{
    using node = intrusive_list_element<Tag>;
    struct sentinel : node
    {
    };
    template <bool C>
    class iter
    {
      public:
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = std::conditional_t<C, const T*, T*>;
        using reference = std::conditional_t<C, const T&, T&>;
        iter() noexcept = default;
        explicit iter(node* n) noexcept : n_{n} {}
        template <bool D, std::enable_if_t<C && !D, int> = 0>
        iter(const iter<D>& o) noexcept : n_{o.n_}
        {
        }
        reference operator*() const noexcept { return *static_cast<pointer>(n_); }
        pointer operator->() const noexcept { return static_cast<pointer>(n_); }
        iter& operator++() noexcept
        {
            n_ = intrusive_list::next(n_);
            return *this;
        }
        iter operator++(int) noexcept
        {
            iter t{*this};
            ++*this;
            return t;
        }
        iter& operator--() noexcept
        {
            n_ = intrusive_list::prev(n_);
            return *this;
        }
        friend bool operator==(const iter& a, const iter& b) noexcept { return a.n_ == b.n_; }
        friend bool operator!=(const iter& a, const iter& b) noexcept { return a.n_ != b.n_; }
        node* n_{nullptr};
    };

  public:
    using value_type = T;
    using iterator = iter<false>;
    using const_iterator = iter<true>;
    using size_type = std::size_t;
    intrusive_list() noexcept { reset(); }
    template <class It>
    intrusive_list(It b, It e) : intrusive_list()
    {
        assign(b, e);
    }
    ~intrusive_list() { clear(); }
    intrusive_list(const intrusive_list&) = delete;
    intrusive_list& operator=(const intrusive_list&) = delete;
    iterator begin() noexcept { return iterator{head_.next_}; }
    iterator end() noexcept { return iterator{&head_}; }
    const_iterator begin() const noexcept { return const_iterator{head_.next_}; }
    const_iterator end() const noexcept { return const_iterator{const_cast<sentinel*>(&head_)}; }
    bool empty() const noexcept { return head_.next_ == &head_; }
    T& front() noexcept
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(!empty(), "front of an empty list");
        return *begin();
    }
    T& back() noexcept { return *static_cast<T*>(head_.prev_); }
    void push_back(T& e) noexcept { link(&head_, &e); }
    void push_front(T& e) noexcept { link(head_.next_, &e); }
    void pop_front() noexcept
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(!empty(), "pop of an empty list");
        unlink(head_.next_);
    }
    void pop_back() noexcept { unlink(head_.prev_); }
    iterator insert(const_iterator p, T& e) noexcept
    {
        link(p.n_, &e);
        return iterator{&e};
    }
    iterator erase(const_iterator p) noexcept
    {
        iterator r{p.n_->next_};
        unlink(p.n_);
        return r;
    }
    iterator iterator_to(T& e) noexcept { return iterator{&e}; }
    void clear() noexcept
    {
        while (!empty())
        {
            unlink(head_.next_);
        }
    }
    template <class It>
    void assign(It b, It e)
    {
        clear();
        for (; b != e; ++b)
        {
            push_back(*b);
        }
    }
    template <class P>
    size_type remove_if(P p)
    {
        return remove_and_dispose_if(p, [](T*) {});
    }
    // Matching elements are unlinked first, then handed over one by one.
    template <class P, class D>
    size_type remove_and_dispose_if(P p, D d)
    {
        intrusive_list gone;
        for (iterator i = begin(); i != end();)
        {
            iterator c = i++;
            if (p(*c))
            {
                unlink(c.n_);
                gone.push_back(*static_cast<T*>(c.n_));
            }
        }
        size_type n{0U};
        while (!gone.empty())
        {
            T& e = gone.front();
            gone.pop_front();
            d(&e);
            ++n;
        }
        return n;
    }

  private:
    static node* next(node* n) noexcept { return n->next_; }
    static node* prev(node* n) noexcept { return n->prev_; }
    void reset() noexcept { head_.next_ = head_.prev_ = &head_; }
    static void link(node* before, node* e) noexcept
    {
        SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(e->next_ == nullptr, "element is linked already");
        e->next_ = before;
        e->prev_ = before->prev_;
        before->prev_->next_ = e;
        before->prev_ = e;
    }
    static void unlink(node* e) noexcept
    {
        e->prev_->next_ = e->next_;
        e->next_->prev_ = e->prev_;
        e->next_ = e->prev_ = nullptr;
    }
    sentinel head_;
};
}  // namespace score::containers
#endif
