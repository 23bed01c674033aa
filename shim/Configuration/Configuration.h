#pragma once
#include <boost/program_options.hpp>
#include <boost/filesystem.hpp>
#include <map>
#include <string>
#include <tuple>
#include <typeindex>
#include <utility>
#include <vector>
#include "AlexandriaKernel/memory_tools.h"
#include "ElementsKernel/Exception.h"
namespace Euclid { namespace Configuration {
class ConfigManager;
class Configuration {
public:
  using OptionDescription = boost::program_options::option_description;
  class OptionDescriptionHelper {
  public:
    OptionDescriptionHelper(const char* n, const char* d) { o().add_options()(n, d); }
    OptionDescriptionHelper(const char* n, const boost::program_options::value_semantic* s) { o().add_options()(n, s); }
    OptionDescriptionHelper(const char* n, const boost::program_options::value_semantic* s, const char* d) { o().add_options()(n, s, d); }
    const boost::program_options::options_description& desc() const { return *m_o; }
  private:
    boost::program_options::options_description& o() { if (!m_o) m_o = std::make_shared<boost::program_options::options_description>(); return *m_o; }
    std::shared_ptr<boost::program_options::options_description> m_o;
  };
  using OptionDescriptionList = std::vector<OptionDescriptionHelper>;
  using UserValues = std::map<std::string, boost::program_options::variable_value>;
  enum class State { CONSTRUCTED, PRE_INITIALIZED, INITIALIZED, FINAL };
  virtual ~Configuration() = default;
  virtual std::map<std::string, OptionDescriptionList> getProgramOptions() { return {}; }
  virtual void preInitialize(const UserValues&) {}
  virtual void initialize(const UserValues&) {}
  virtual void postInitialize(const UserValues&) {}
  State& getCurrentState() { return m_state; }
  const State& getCurrentState() const { return m_state; }
protected:
  explicit Configuration(long manager_id) : m_manager_id(manager_id) {}
  template <typename T> void declareDependency();
  template <typename T> T& getDependency();
  template <typename T> const T& getDependency() const;
  ConfigManager& getManager() const;
  std::type_index m_self = typeid(void);
private:
  friend class ConfigManager;
  long m_manager_id; State m_state = State::CONSTRUCTED; std::vector<std::type_index> m_deps;
};
} }
#include "Configuration/ConfigManager.h"
