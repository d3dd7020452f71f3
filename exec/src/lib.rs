pub use {getopts, ihex, regex, twelve_bit};
