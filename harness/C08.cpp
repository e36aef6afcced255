// The object store and the variables referring to it.
#include "vm.h"
#include <Core/VirtualMachine/Memory.h>
#include <algorithm>
#include <map>
using namespace H;
using Runtime::MemoryId;
using Runtime::Reference;

static std::vector<int> freed; // numbers of destroyed objects
static Memory *store = nullptr;
class Item : public Runtime::Object {
public:
  explicit Item(int n) : Object("item", "", "Item", Runtime::AtomicValue(0)), mNumber(n) {}
  ~Item() override {
    freed.push_back(mNumber);
    if (mHeld.isValid()) store->remove(mHeld);
  }
  int mNumber;
  Reference mHeld; // reference held by the object itself, dropped with it
};

struct Entry {
  int number;
  unsigned count;
  MemoryId held;
  unsigned own; // references added by the history itself
};
struct Model {
  std::map<MemoryId, Entry> live;
  std::vector<int> freed;
  void remove(MemoryId id) {
    auto &e = live[id];
    if (--e.count) return;
    freed.push_back(e.number);
    MemoryId held = e.held;
    live.erase(id);
    if (held) remove(held);
  }
};
static bool has(const Model &m, MemoryId id) {
  bool r = false;
  for (auto &e : m.live) r = r | (e.first == id);
  return r;
}
static void sameFreed(const Model &m, const char *msg) {
  auto a = freed, b = m.freed;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  sx_assert(a == b, msg);
}

// the addresses handed to add, remove and get are symbolic
static void rawHistory(int length) {
  store = new Memory();
  store->init();
  Model m;
  int numbers = 0;
  MemoryId lastFreed = 0;
  // a store with two objects and up to two references to the first one
  unsigned start = sx_choose("start", 3);
  if (start) ++start;
  if (start) {
    Reference a = store->newObject(new Item(++numbers)), b = store->newObject(new Item(++numbers));
    sx_assert(a.getAddress() && b.getAddress() && !(a == b), "different objects have different addresses");
    m.live[a.getAddress()] = Entry{1, start - 1, 0, start - 1};
    m.live[b.getAddress()] = Entry{2, 1, 0, 1};
    for (unsigned i = 1; i < start; ++i) store->add(a);
    store->add(b);
  }
  for (int k = 0; k < length; ++k) {
    std::string s = std::to_string(k);
    unsigned op = sx_choose(("op" + s).c_str(), 4);
    if (op == 0 || op == 3) {
      auto *item = new Item(++numbers);
      Reference held;
      if (op == 3) {
        // an object that holds a reference to another one
        MemoryId h = sx_u32(("held" + s).c_str());
        sx_assume(has(m, h));
        held = Reference(h);
        store->add(held);
        item->mHeld = held;
        m.live.find((MemoryId)sx_pinned_u64(h))->second.count++;
      }
      Reference r = store->newObject(item);
      MemoryId id = r.getAddress();
      sx_assert(id != 0, "the null address is never used for an object");
      sx_assert(!has(m, id), "an address in use is not used again");
      sx_assert(item->getReference() == r, "an object knows its address");
      m.live[id] = Entry{numbers, 0, held.getAddress(), 0};
      sx_reach("new");
      continue;
    }
    MemoryId id = sx_u32(("id" + s).c_str());
    if (!has(m, id) && id != 0) {
      // the error message contains the address: a few addresses without object are enough
      sx_assume((id == 4711) | (id == 0xffffffffu) | (id == (m.freed.empty() ? 4712 : lastFreed)));
    }
    bool known = has(m, id), error = false;
    if (op == 2 && known) {
      bool counted = false;
      for (auto &e : m.live) counted = counted | ((e.first == id) & (e.second.own > 0));
      sx_assume(counted); // only references that were added are removed
    }
    try {
      if (op == 1) store->add(Reference(id));
      else store->remove(Reference(id));
    } catch (std::exception &) {
      error = true;
    }
    if (id == 0) {
      sx_assert(!error, "the null address is ignored");
      continue;
    }
    sx_assert(error == !known, "addresses without object are rejected");
    if (error) {
      sx_reach("rejected");
      continue;
    }
    MemoryId c = (MemoryId)sx_pinned_u64(id);
    if (op == 1) m.live[c].count++, m.live[c].own++;
    else {
      m.live[c].own--;
      m.remove(c);
      if (!m.live.count(c)) lastFreed = c;
    }
    sameFreed(m, "an object is freed exactly when its last reference is removed");
    if (!freed.empty()) sx_reach("freed");
  }
  MemoryId q = sx_u32("query");
  Runtime::Object *o = store->get(Reference(q));
  if (!has(m, q)) sx_assert(o == nullptr, "no object for a null or freed address");
  else {
    sx_assert(o != nullptr, "a live address has an object");
    MemoryId c = (MemoryId)sx_pinned_u64(q);
    sx_assert(static_cast<Item *>(o)->mNumber == m.live[c].number, "an address yields the object stored there");
  }
  sameFreed(m, "looking up frees nothing");
  delete store;
  std::vector<int> all = freed, want;
  for (int i = 1; i <= numbers; ++i) want.push_back(i);
  std::sort(all.begin(), all.end());
  sx_assert(all == want, "at the end every object has been freed exactly once");
}
SX_CASE(store_histories) { rawHistory(3); }
SX_CASE(T_long_store_histories) { rawHistory(4); }

// counts: references can be added and removed many times
SX_CASE(counting) {
  store = new Memory();
  store->init();
  Reference a = store->newObject(new Item(1)), b = store->newObject(new Item(2));
  unsigned n = sx_choose("added", 6) + 1;
  for (unsigned i = 0; i < n; ++i) store->add(a);
  for (unsigned i = 0; i + 1 < n; ++i) {
    store->remove(a);
    sx_assert(freed.empty() && store->get(a) != nullptr, "an object lives as long as a reference is left");
  }
  store->remove(a);
  sx_assert(freed.size() == 1 && freed[0] == 1 && store->get(a) == nullptr && store->get(b) != nullptr, "the last removal frees this object only");
}

// the same around the limits of narrower counters
SX_CASE(many_references) {
  static const unsigned amounts[] = {127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537};
  store = new Memory();
  store->init();
  Reference a = store->newObject(new Item(1)), b = store->newObject(new Item(2));
  store->add(b);
  unsigned n = amounts[sx_choose("added", 12)];
  for (unsigned i = 0; i < n; ++i) store->add(a);
  sx_assert(freed.empty() && store->get(a) != nullptr, "an object lives as long as a reference is left");
  store->remove(a);
  sx_assert(freed.empty() && store->get(a) != nullptr, "an object lives as long as a reference is left");
  for (unsigned i = 0; i + 2 < n; ++i) store->remove(a);
  sx_assert(freed.empty() && store->get(a) != nullptr, "an object lives as long as a reference is left");
  store->remove(a);
  sx_assert(freed.size() == 1 && freed[0] == 1 && store->get(a) == nullptr && store->get(b) != nullptr, "the last removal frees this object only");
}

// addresses stay distinct around the limits of narrower addresses
SX_CASE(many_addresses) {
  store = new Memory();
  store->init();
  Reference first = store->newObject(new Item(1));
  MemoryId last = first.getAddress();
  for (unsigned i = 0; i < 66000; ++i) {
    Reference r = store->newObject(new Item(2));
    if (r.getAddress() == first.getAddress() || r.getAddress() == last || !r.isValid()) sx_fail("an address in use is used again");
    last = r.getAddress();
    if (i + 10 < 66000) {
      store->add(r);
      store->remove(r);
    }
  }
  sx_assert(store->get(first) != nullptr && freed.size() == 66000 - 10, "other objects are untouched");
}

// ---------------------------------------------------------------- references
SX_CASE(references) {
  MemoryId a = sx_u32("a"), b = sx_u32("b"), c = sx_u32("c");
  Reference x(a), y(b), z(c), none;
  sx_assert(x.getAddress() == a, "a reference keeps its address");
  sx_assert(x.isValid() == (a != 0), "only the null reference is invalid");
  sx_assert(!none.isValid() && none.getAddress() == 0, "a default reference is null");
  sx_assert((x == y) == (a == b), "references are equal when their addresses are");
  sx_assert((x < y) == (a < b), "references are ordered by address");
  if (x < y && y < z) sx_assert(x < z, "the order is transitive");
}

// ---------------------------------------------------------------- variables
static void variables(int length) {
  newVM();
  store = Controller::Instance().memory();
  Runtime::Object slot[3];
  MemoryId ids[3] = {0, 0, 0};
  Model m;
  int numbers = 0;
  auto set = [&](int i, MemoryId id) {
    if (id) m.live[id].count++;
    MemoryId old = ids[i];
    ids[i] = id;
    if (old) m.remove(old);
  };
  for (int k = 0; k < length; ++k) {
    std::string s = std::to_string(k);
    unsigned op = sx_choose(("op" + s).c_str(), 5);
    unsigned i = sx_choose(("to" + s).c_str(), 3), j = op == 1 || op == 2 || op == 4 ? sx_choose(("from" + s).c_str(), 3) : 0;
    if (op == 0) {
      auto *item = new Item(++numbers);
      Reference r = store->newObject(item);
      sx_assert(!has(m, r.getAddress()), "an address in use is not used again");
      m.live[r.getAddress()] = Entry{numbers, 0, 0, 0};
      slot[i] = *item;
      set(i, r.getAddress());
    } else if (op == 1) {
      slot[i] = slot[j];
      set(i, ids[j]);
    } else if (op == 2) {
      slot[i].assign(slot[j]);
      set(i, ids[j]);
    } else if (op == 3) {
      slot[i] = Runtime::Object();
      set(i, 0);
    } else {
      // a temporary handle to the object
      Runtime::Object *tmp = new Runtime::Object();
      *tmp = slot[j];
      slot[i] = Runtime::Object();
      MemoryId old = ids[j];
      if (old) m.live[old].count++;
      set(i, 0);
      sameFreed(m, "a temporary handle keeps the object alive");
      delete tmp;
      if (old) m.remove(old);
    }
    sameFreed(m, "an object is freed exactly when the last variable referring to it is set to something else");
    for (int v = 0; v < 3; ++v) {
      sx_assert(slot[v].getReference().getAddress() == ids[v], "a variable refers to the object last assigned");
      sx_assert(slot[v].isValid() == (ids[v] != 0), "a variable is valid when it refers to an object");
    }
  }
}
SX_CASE(variable_histories) { variables(3); }
SX_CASE(T_long_variable_histories) { variables(4); }
