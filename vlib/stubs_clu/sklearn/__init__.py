"""Recording stand-in for the third-party clustering package, which is not installed here."""
