#ifndef KOGNAC_FACTORY_H
#define KOGNAC_FACTORY_H
// Stand-in for kognac/factory.h. Objects are pooled and reused like in KOGNAC, because
// Trident's iterators must cope with being re-initialised without construction.
#include <vector>
template<class T>
class Factory {
    std::vector<T*> pool;
    size_t max;
    public:
    Factory(int max = 20) : max(max) {}
    T *get() {
        if (pool.empty()) return new T();
        T *t = pool.back(); pool.pop_back(); return t;
    }
    void release(T *t) {
        if (pool.size() < max) pool.push_back(t); else delete t;
    }
    ~Factory() { for (auto t : pool) delete t; }
};
template<class T>
class PreallocatedFactory {
    Factory<T> f;
    public:
    PreallocatedFactory(int, int) : f(1000) {}
    T *get() { return f.get(); }
    void release(T *t) { f.release(t); }
};
template<class T>
class PreallocatedArraysFactory {
    std::vector<T*> pool;
    const int sizeArray; const size_t max;
    public:
    PreallocatedArraysFactory(int sizeArray, int max, int) : sizeArray(sizeArray), max(max < 0 ? 0 : max) {}
    T *get() {
        if (pool.empty()) return new T[sizeArray]();
        T *t = pool.back(); pool.pop_back(); return t;
    }
    void release(T *t) {
        if (pool.size() < max) pool.push_back(t); else delete[] t;
    }
    ~PreallocatedArraysFactory() { for (auto t : pool) delete[] t; }
};
template<class T>
class PreallocatedStratArraysFactory : public PreallocatedArraysFactory<T> {
    public:
    PreallocatedStratArraysFactory(int sizeArray, int prealloc, int max) :
        PreallocatedArraysFactory<T>(sizeArray, max, prealloc) {}
};
#endif
