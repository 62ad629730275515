// the document given to write_xml is kept for the law; read_xml gives the document of the law
#ifndef STUB_XML_PARSER_HPP
#define STUB_XML_PARSER_HPP
#include <boost/property_tree/ptree.hpp>
#include <istream>
#include <ostream>
extern boost::property_tree::ptree law_written, law_to_read;
namespace boost { namespace property_tree {
template <class S> struct xml_writer_settings { template <class... A> explicit xml_writer_settings(A...) {} };
namespace xml_parser {
template <class S> void write_xml(std::ostream &, const ptree &pt, const xml_writer_settings<S> & = xml_writer_settings<S>()) { law_written = pt; }
inline void read_xml(std::istream &, ptree &pt, int = 0) { pt = law_to_read; }
using boost::property_tree::xml_writer_settings;
}
using xml_parser::write_xml;
using xml_parser::read_xml;
} }
#endif
