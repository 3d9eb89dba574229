// asio/wrap.hpp was dropped from asio; everything listener.cc needs of it (strand::wrap) comes with
// asio/io_context_strand.hpp, which asio/strand.hpp and io_service.hpp bring in.
#include "asio/io_context_strand.hpp"
#include "asio/strand.hpp"
