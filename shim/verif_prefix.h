// Force-included (-include) before every source of /repo that the checks build.  It supplies what
// the MaidSafe super-project's toolchain supplied and this sandbox's newer libraries no longer do.
// Nothing here replaces behaviour of MaidSafe-Common itself.
#ifndef VERIF_PREFIX_H_
#define VERIF_PREFIX_H_
#include <cassert>
#include <memory>
#include "asio/io_service.hpp"
#include "boost/filesystem.hpp"
#include "cryptopp/filters.h"
#ifndef MAIDSAFE_DISABLED_TEST_RETURN_CODE
#define MAIDSAFE_DISABLED_TEST_RETURN_CODE -1
#endif
namespace CryptoPP {
typedef SignatureVerificationFilter VerifierFilter;  // the older name, gone since Crypto++ 8
}
namespace boost { namespace filesystem { namespace copy_option {
static const boost::filesystem::copy_options overwrite_if_exists = boost::filesystem::copy_options::overwrite_existing;
} } }
#endif
