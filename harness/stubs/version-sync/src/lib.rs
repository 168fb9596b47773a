//! Empty stand-in for `version-sync` (used only by /repo's tests).
