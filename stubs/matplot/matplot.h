// Declarations only (see steering_functions.hpp).
#pragma once
#include <array>
#include <memory>
#include <string>
#include <vector>
#include <initializer_list>
namespace matplot {
struct line_like { line_like& line_width(float); line_like& color(const std::array<float,4>&);
  line_like& marker_color(const std::array<float,3>&); };
using line_handle = std::shared_ptr<line_like>;
struct figure_type { void draw(); void width(size_t); void height(size_t); void size(size_t, size_t); template <class... A> void quiet_mode(A...); };
std::array<float,4> to_array(const std::vector<double>&);
line_handle plot(const std::vector<double>&, const std::vector<double>&);
line_handle scatter(const std::vector<double>&, const std::vector<double>&);
line_handle arrow(double, double, double, double);
line_handle polygon(const std::vector<double>&, const std::vector<double>&);
enum keyword_t { equal, on, off };
void axis(keyword_t); void figure(bool); void hold(keyword_t);
std::shared_ptr<figure_type> gcf(bool);
void show(); void save(const std::string&); void title(const std::string&);
void xlim(std::array<double,2>); void ylim(std::array<double,2>);
}
