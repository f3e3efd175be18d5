include!("../mpisim/build.rs");
