// Handle on one instantiation of the library's hash table (see shim_misc.cc).
#pragma once
#include <cstdint>
#include <cstddef>
struct IMap {
    typedef uint64_t U;
    typedef void (*Visit)(void *, U, U);
    virtual ~IMap() { }
    virtual U size() = 0;
    virtual U capacity() = 0;
    virtual void insert(int form, U k, U v, U *rk, U *rv) = 0;      // 0 insert(k,v), 1 insert(pair), 2 insert(hint,pair); reports what the returned iterator points at
    virtual U get(U k) = 0;                                          // m[k]
    virtual void set(U k, U v) = 0;                                  // m[k] = v
    virtual bool chain(U k, U v) = 0;                                // m[m[k]] = v, where keys and values are of one type
    virtual bool find(U k, U *fk, U *fv) = 0;
    virtual bool poke(U k, U v) = 0;                                 // find(k)->second = v
    virtual void erase(U k) = 0;
    virtual void clear() = 0;
    virtual void each(int form, Visit, void *) = 0;                  // 0 range for, 1 ++it, 2 it++
    virtual bool empty_range() = 0;                                  // begin() == end()
    virtual IMap *copy() = 0;                                        // copy constructor
    virtual IMap *moved() = 0;                                       // move constructor
    virtual void assign(IMap *) = 0;                                 // copy assignment
    virtual void move_assign(IMap *) = 0;
    virtual bool equal(IMap *) = 0;
    virtual bool differs(IMap *) = 0;
};
extern "C" IMap *shim_map_new(int type, uint64_t size);             // size 0: default constructor
enum { MAP_TYPES = 7 };
