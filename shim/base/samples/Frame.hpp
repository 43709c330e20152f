#ifndef SHIM_BASE_FRAME_HPP
#define SHIM_BASE_FRAME_HPP
#include <vector>
#include <map>
#include <string>
#include <stdint.h>
#include <base/Time.hpp>
namespace base { namespace samples { namespace frame {
    enum frame_mode_t { MODE_UNDEFINED = 0, MODE_GRAYSCALE = 1, MODE_RGB = 2 };
    enum frame_status_t { STATUS_EMPTY, STATUS_VALID, STATUS_INVALID };
    struct Frame
    {
	Time time;
	std::vector<uint8_t> image;
	frame_mode_t frame_mode;
	frame_status_t frame_status;
	std::map<std::string, std::string> attributes;
	Frame() : frame_mode( MODE_UNDEFINED ), frame_status( STATUS_EMPTY ) {}
	void init( uint16_t w, uint16_t h, uint8_t depth, frame_mode_t m )
	{
	    frame_mode = m;
	    image.resize( (size_t)w * h * (depth / 8) * (m == MODE_RGB ? 3 : 1) );
	}
	template<class T> void setAttribute( const std::string& k, const T& v ) { attributes[k] = v; }
	frame_mode_t getFrameMode() const { return frame_mode; }
	const uint8_t* getImageConstPtr() const { return image.data(); }
	size_t getNumberOfBytes() const { return image.size(); }
    };
}}}
#endif
