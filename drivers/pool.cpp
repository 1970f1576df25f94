#include "raise.hpp"
#include "spine/structure/pool.hpp"
#include <memory>
#include <set>
using spn::structure::Pool;
static int live = 0;
struct Item { int v; Item(int v) : v(v) { ++live; } Item(Item&& o) : v(o.v) { ++live; o.v = -1; } ~Item() { --live; } };
int main() {
    drv::arm();
    for (int big = 0; drv::time_left(); ++big) for (int rep = 0; rep < 200; ++rep) {
        drv::history.clear(); ++drv::cases; size_t cap = 1 + drv::rnd(7); if (rep == 0 && big % 16 == 0) cap = 70000;
        { int next = 0; std::vector<std::shared_ptr<Item>> held, outside; std::set<int> in; std::vector<int> order;
        { Pool<Item> p(cap); drv::note("Pool(" + std::to_string(cap) + ")"); bool quiet = cap > 100; CHECK(p.size() == 0, "new pool");
            auto add = [&] { int v = next++; switch (drv::rnd(4)) { case 0: p.populate(new Item(v)); break; case 1: { Item i(v); p.populate(std::move(i)); break; } case 2: p.populate(std::make_shared<Item>(v)); break; default: { auto s = std::make_shared<Item>(v); if (drv::coin()) { outside.push_back(s); } p.populate(s); } } order.push_back(v); if (!quiet) drv::note("populate " + std::to_string(v)); };
            size_t n = drv::rnd(6) ? cap : drv::rnd(cap); for (size_t i = 0; i < n; ++i) add();
            auto holders = [&](int v) { size_t k = 0; for (auto& h : held) k += h->v == v; for (auto& h : outside) k += h->v == v; return k; };
            if (quiet) { std::vector<std::shared_ptr<Item>> g; size_t free = n - outside.size(); for (size_t i = 0; i < free; ++i) { auto a = p.acquire(); CHECK(a && a.use_count() == 2, "object " << i << " of " << free << " is not handed out"); g.push_back(a); } CHECK(!p.acquire(), "an object in use is handed out"); std::set<int> u; for (auto& x : g) u.insert(x->v); CHECK(u.size() == free, "objects handed out twice"); g.pop_back(); CHECK(p.acquire() != nullptr, "the released object is not found"); g.erase(g.begin()); CHECK(p.acquire() != nullptr, "the released first object is not found"); }
            else for (int k = 0; k < 40; ++k) {
                switch (drv::rnd(8)) {
                case 0: case 1: case 2: { drv::note("acquire"); size_t free = 0; for (int v : order) free += !holders(v); auto a = p.acquire(); CHECK(bool(a) == (free > 0), (free ? "no object handed out though one is free" : "an object in use is handed out")); if (a) { CHECK(!holders(a->v) && a.use_count() == 2, "object " << a->v << " is handed out while in use"); CHECK(std::count(order.begin(), order.end(), a->v) == 1, "object not of the pool"); held.push_back(std::move(a)); drv::note("-> " + std::to_string(held.back()->v)); } break; }
                case 3: if (!held.empty()) { size_t i = drv::rnd(held.size()); drv::note("release " + std::to_string(held[i]->v)); held.erase(held.begin() + i); } break;
                case 4: if (!outside.empty()) { drv::note("release"); outside.erase(outside.begin() + drv::rnd(outside.size())); } break;
                case 5: if (!drv::rnd(3) && !order.empty()) { drv::note("depopulate"); std::shared_ptr<Item> a = p.depopulate(); CHECK(a && a->v == order[0], "another object than the first leaves the pool"); CHECK((size_t)a.use_count() == 1 + holders(order[0]), "object leaving the pool has " << a.use_count() << " holders"); order.erase(order.begin()); } break;
                case 6: if (!drv::rnd(4)) {      // another pool takes its place
                    if (drv::coin()) { p = std::move(p); break; }
                    size_t c = 1 + drv::rnd(5), m = drv::rnd(c + 1); drv::note("assign Pool(" + std::to_string(c) + ") of " + std::to_string(m)); Pool<Item> q(c); order.clear(); cap = c; for (size_t i = 0; i < m; ++i) { q.populate(new Item(next)); order.push_back(next++); }
                    if (m == c) { std::vector<std::shared_ptr<Item>> g; for (size_t i = 0, n = drv::rnd(c + 1); i < n; ++i) g.push_back(q.acquire()); if (drv::coin() && !g.empty()) held.push_back(g[0]); }
                    p = std::move(q); CHECK(q.size() == 0, "the pool moved from still has " << q.size() << " objects"); } break;
                default: if (order.size() < cap && drv::coin()) add();
                }
                CHECK(p.size() == order.size() && p.is_fully_populated() == (order.size() == cap), "pool has " << p.size() << " objects, expected " << order.size());
                for (auto* h : {&held, &outside}) for (auto& x : *h) CHECK((size_t)x.use_count() == holders(x->v) + std::count(order.begin(), order.end(), x->v), "object " << x->v << " has " << x.use_count() << " holders");
            }
            drv::note("destroy the pool");
        }
        std::set<Item*> alive; for (auto* h : {&held, &outside}) for (auto& x : *h) alive.insert(x.get());
        for (auto* h : {&held, &outside}) for (auto& x : *h) { size_t c = 0; for (auto* g : {&held, &outside}) for (auto& y : *g) c += y == x; CHECK((size_t)x.use_count() == c, "the destroyed pool still holds object " << x->v); }
        CHECK((size_t)live == alive.size(), live << " objects are alive after the pool is gone, expected " << alive.size()); }
        CHECK(live == 0, live << " objects leaked");
    }
    drv::done("random histories of populating, acquiring, releasing and depopulating compared with counted holders");
}
