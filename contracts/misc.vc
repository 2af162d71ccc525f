@fn error::Error::to_error_byte -> r C17
ensures r == error_code(*self),

@fn version::Version::get_kdf_initial_salt -> r C17
ensures r@ =~= initial_salt(*self),

@fn version::Version::get_version_field_val -> r C17
ensures r == version_number(*self),

