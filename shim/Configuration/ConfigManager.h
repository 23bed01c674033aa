// Stand-in for Alexandria's ConfigManager: configurations are registered once with their dependencies, and the
// three initialisation steps run in dependency order (dependencies first).
#pragma once
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include "Configuration/Configuration.h"
namespace Euclid { namespace Configuration {
class ConfigManager {
public:
  static ConfigManager& getInstance(long id) { auto& p = all()[id]; if (!p) p.reset(new ConfigManager(id)); return *p; }
  static void drop(long id) { all().erase(id); } // for the checks
  static std::map<long, std::unique_ptr<ConfigManager>>& all() { static std::map<long, std::unique_ptr<ConfigManager>> m; return m; }
  static void deregisterAll() {}
  template <typename T> void registerConfiguration() {
    std::type_index t = typeid(T);
    if (m_configs.count(t)) return;
    m_configs[t] = nullptr; // guards against recursion
    m_building.push_back(t);
    std::unique_ptr<T> c(new T(m_id));
    m_building.pop_back();
    for (auto d : c->Configuration::m_deps) m_deps[t].insert(d);
    m_configs[t] = std::move(c); m_order.push_back(t);
  }
  template <typename A, typename B> void registerDependency() { registerConfiguration<B>(); m_deps[typeid(A)].insert(typeid(B)); }
  boost::program_options::options_description closeRegistration() {
    m_closed = true; boost::program_options::options_description all; std::map<std::string, boost::program_options::options_description> g;
    for (auto& p : m_configs) for (auto& o : p.second->getProgramOptions()) { auto it = g.emplace(o.first, boost::program_options::options_description(o.first)).first;
        for (auto& h : o.second) for (auto& x : h.desc().options()) it->second.add(x); }
    for (auto& p : g) all.add(p.second);
    return all;
  }
  void initialize(const Configuration::UserValues& v) {
    std::vector<std::type_index> order; std::set<std::type_index> seen;
    for (auto& p : m_configs) visit(p.first, seen, order);
    for (auto& t : order) { m_configs.at(t)->preInitialize(v); m_configs.at(t)->m_state = Configuration::State::PRE_INITIALIZED; }
    for (auto& t : order) { m_configs.at(t)->initialize(v); m_configs.at(t)->m_state = Configuration::State::INITIALIZED; }
    for (auto& t : order) { m_configs.at(t)->postInitialize(v); m_configs.at(t)->m_state = Configuration::State::FINAL; }
  }
  template <typename T> T& getConfiguration() { auto i = m_configs.find(typeid(T)); if (i == m_configs.end() || !i->second) throw Elements::Exception() << "No Configuration registered"; return dynamic_cast<T&>(*i->second); }
  std::set<std::type_index> getDependencies() { return {}; }
private:
  explicit ConfigManager(long id) : m_id(id) {}
  void visit(std::type_index t, std::set<std::type_index>& seen, std::vector<std::type_index>& out) { if (!seen.insert(t).second) return; for (auto d : m_deps[t]) visit(d, seen, out); if (m_configs.count(t)) out.push_back(t); }
  long m_id; bool m_closed = false; std::map<std::type_index, std::unique_ptr<Configuration>> m_configs; std::map<std::type_index, std::set<std::type_index>> m_deps; std::vector<std::type_index> m_order, m_building;
};
template <typename T> void Configuration::declareDependency() { ConfigManager::getInstance(m_manager_id).registerConfiguration<T>(); m_deps.push_back(typeid(T)); }
template <typename T> T& Configuration::getDependency() { return ConfigManager::getInstance(m_manager_id).getConfiguration<T>(); }
template <typename T> const T& Configuration::getDependency() const { return ConfigManager::getInstance(m_manager_id).getConfiguration<T>(); }
inline ConfigManager& Configuration::getManager() const { return ConfigManager::getInstance(m_manager_id); }
} }
