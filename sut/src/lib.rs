//! Only pulls in the code under test.
