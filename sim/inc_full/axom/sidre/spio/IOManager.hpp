#pragma once
#include "../core/DataStore.hpp"
namespace axom { namespace sidre {
/// one root file and one data file per process; errors are exceptions
class IOManager {
  MPI_Comm comm;
public:
  explicit IOManager(MPI_Comm c, bool = false) : comm(c) {}
  void write(Group* group, int num_files, const std::string& file_base, const std::string& protocol, const std::string& tree_pattern = "datagroup");
  void read(Group* group, const std::string& root_file, bool preserve_contents = false);
};
} }
