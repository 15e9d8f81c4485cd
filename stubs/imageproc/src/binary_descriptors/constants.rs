pub const BRIEF_PATCH_RADIUS: u32 = 15;
pub const BRIEF_PATCH_DIAMETER: u32 = BRIEF_PATCH_RADIUS * 2 + 1;
