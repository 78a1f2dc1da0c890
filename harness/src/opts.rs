//! Drawing parse options.

use crate::engine::Src;
use wolfram_parser::source::SourceConvention;
use wolfram_parser::{
    EncodingMode, FirstLineBehavior, ParseOptions, QuirkSettings,
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct O {
    pub conv: SourceConvention,
    pub tab: u32,
    pub first: u8,
    pub enc: u8,
    pub quirks: [bool; 3],
}

impl O {
    pub fn plain() -> O {
        O {
            conv: SourceConvention::LineColumn,
            tab: 4,
            first: 0,
            enc: 0,
            quirks: [true, false, false],
        }
    }
    pub fn make(&self) -> ParseOptions {
        let first = match self.first {
            0 => FirstLineBehavior::NotScript,
            1 => FirstLineBehavior::Check,
            _ => FirstLineBehavior::Script,
        };
        let enc = if self.enc == 0 {
            EncodingMode::Normal
        } else {
            EncodingMode::Box
        };
        let usual = self.quirks == [true, false, false];
        if self.enc == 0 && (self.quirks[2] || (usual && matches!(self.tab, 4 | 8))) {
            // The same by the builder, from the defaults.
            let mut p = ParseOptions::default();
            if !usual {
                p.quirk_settings = self.quirk();
            }
            if self.tab != 4 {
                p = p.tab_width(self.tab);
            }
            if self.first != 0 {
                p = p.first_line_behavior(first);
            }
            if self.conv != SourceConvention::LineColumn {
                p = p.source_convention(self.conv);
            }
            return p;
        }
        ParseOptions::make(first, self.conv, enc, self.tab, self.quirk())
    }
    pub fn quirk(&self) -> QuirkSettings {
        QuirkSettings {
            infix_binary_at: self.quirks[0],
            flatten_times: self.quirks[1],
            old_at_at_at: self.quirks[2],
        }
    }
    pub fn show(&self) -> String {
        format!(
            "{}{}{}{}{}",
            if self.conv == SourceConvention::LineColumn {
                "LC"
            } else {
                "CI"
            },
            if self.tab != 4 {
                format!(",tab={}", self.tab)
            } else {
                String::new()
            },
            if self.first != 0 {
                format!(",first={}", self.first)
            } else {
                String::new()
            },
            if self.enc != 0 { ",box" } else { "" },
            if self.quirks != [true, false, false] {
                format!(",quirks={:?}", self.quirks)
            } else {
                String::new()
            },
        )
    }
}

pub fn conv(s: &mut Src) -> SourceConvention {
    if s.below(2) == 0 {
        SourceConvention::LineColumn
    } else {
        SourceConvention::CharacterIndex
    }
}

pub fn tab(s: &mut Src) -> u32 {
    *s.pick(&[4, 1, 2, 3, 8, 7, 4, 16, 100])
}

/// Any options.
pub fn any(s: &mut Src) -> O {
    O {
        conv: conv(s),
        tab: tab(s),
        first: s.weighted(&[6, 1, 1]) as u8,
        enc: s.weighted(&[3, 1]) as u8,
        quirks: [!s.chance(1, 3), s.chance(1, 3), s.chance(1, 3)],
    }
}

/// Convention and tab width only.
pub fn positions(s: &mut Src) -> O {
    O {
        conv: conv(s),
        tab: tab(s),
        ..O::plain()
    }
}
