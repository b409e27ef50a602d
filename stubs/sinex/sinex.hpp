#ifndef VSTUB_SINEX
#define VSTUB_SINEX
#include "datetime/dtcalendar.hpp"
#include <vector>
#include <algorithm>
namespace dso {
namespace sinex {
struct SiteId { char m_site_code[5]; char m_point_code[3]; char m_domes[10]; char m_obscode; char m_description[23]; double m_lon, m_lat, m_height; };
struct SolutionEstimate { int m_index; char m_param_type[7]; char m_site_code[5]; char m_point_code[3]; char m_soln_id[5]; datetime<microseconds> m_epoch; char m_units[5]; char m_constraint[2]; double m_estimate; double m_std_deviation; };
}
class Sinex {
public:
  Sinex(const char *);
  std::string filename() const;
  int parse_block_site_id(std::vector<sinex::SiteId> &, int, char **) noexcept;
  int parse_block_site_id(std::vector<sinex::SiteId> &, bool, int, char **) noexcept;
  int parse_block_solution_estimate(std::vector<sinex::SolutionEstimate> &, std::vector<sinex::SiteId> &) noexcept;
  int parse_block_solution_estimate(std::vector<sinex::SolutionEstimate> &, int, char **) noexcept;
};
}
#endif
