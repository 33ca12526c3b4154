// Stand-in for the part of axom::sidre that HiOp uses: a tree of groups with views of doubles, and an IOManager on simulated storage (sim/sidre.cpp).
#pragma once
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <mpi.h>
namespace axom { namespace sidre {
typedef long IndexType;
enum TypeID { NO_TYPE_ID = 0, DOUBLE_ID = 1 };
class View {
public:
  IndexType n = 0, stride = 1, offset = 0;
  std::vector<double> data;
  IndexType getNumElements() const { return n; }
  IndexType getStride() const { return stride; }
  IndexType getOffset() const { return offset; }
  double* getArray() { return data.data() + offset; }
  double* getData() { return data.data() + offset; }
};
class Group {
public:
  std::map<std::string, std::unique_ptr<View>> views;
  std::map<std::string, std::unique_ptr<Group>> groups;
  View* getView(const std::string& name) { auto i = views.find(name); return i == views.end() ? nullptr : i->second.get(); }
  const View* getView(const std::string& name) const { auto i = views.find(name); return i == views.end() ? nullptr : i->second.get(); }
  bool hasView(const std::string& name) const { return getView(name) != nullptr; }
  View* createViewAndAllocate(const std::string& name, TypeID, IndexType n, IndexType stride = 1)
  {
    if(hasView(name)) return nullptr;
    auto* v = new View; v->n = n; v->stride = stride; v->data.assign(n * stride + 1, -777.);
    views[name].reset(v); return v;
  }
  Group* createGroup(const std::string& name) { if(hasGroup(name)) return nullptr; auto* g = new Group; groups[name].reset(g); return g; }
  Group* getGroup(const std::string& name) { auto i = groups.find(name); return i == groups.end() ? nullptr : i->second.get(); }
  const Group* getGroup(const std::string& name) const { auto i = groups.find(name); return i == groups.end() ? nullptr : i->second.get(); }
  bool hasGroup(const std::string& name) const { return groups.count(name) != 0; }
  static const std::string& getDefaultIOProtocol() { static const std::string s = "sidre_hdf5"; return s; }
};
class DataStore {
  Group root;
public:
  Group* getRoot() { return &root; }
  const Group* getRoot() const { return &root; }
};
} }
