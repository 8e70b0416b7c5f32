// Stand-in for the tinyply library (not available offline): keeps the columns handed to it in memory.
#pragma once
#include <cstdint>
#include <cstring>
#include <ostream>
#include <string>
#include <vector>
extern "C" void vp_wrote(void*stream,int id);
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
struct Column { std::string element,name; int ncomp,comp; size_t count; const uint8_t*data; std::vector<double> values; };
inline std::vector<std::vector<Column>>& files(){ static std::vector<std::vector<Column>> f; return f; }
struct PlyFile {
  std::vector<Column> cols; std::vector<std::string> comments;
  std::vector<std::string>& get_comments(){ return comments; }
  void add_properties_to_element(const std::string&el,const std::vector<std::string>&props,Type,size_t count,const uint8_t*data,Type,size_t){
    for(size_t k=0;k<props.size();k++){ Column c; c.element=el; c.name=props[k]; c.ncomp=(int)props.size(); c.comp=(int)k; c.count=count; c.data=data; cols.push_back(c); } }
  void write(std::ostream&os,bool){ for(auto&c:cols){ c.values.resize(c.count); const double*d=reinterpret_cast<const double*>(c.data); for(size_t i=0;i<c.count;i++) c.values[i]=d[i*c.ncomp+c.comp]; } vp_wrote(&os,(int)files().size()); files().push_back(cols); }
};
}
