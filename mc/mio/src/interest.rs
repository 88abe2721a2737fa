use std::{num::NonZeroU8, ops};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Interest(NonZeroU8);
const R: u8 = 1;
const W: u8 = 2;
const P: u8 = 4;
impl Interest {
    pub const READABLE: Interest = Interest(NonZeroU8::new(R).unwrap());
    pub const WRITABLE: Interest = Interest(NonZeroU8::new(W).unwrap());
    pub const PRIORITY: Interest = Interest(NonZeroU8::new(P).unwrap());
    #[allow(clippy::should_implement_trait)]
    pub const fn add(self, o: Interest) -> Interest {
        Interest(NonZeroU8::new(self.0.get() | o.0.get()).unwrap())
    }
    pub fn remove(self, o: Interest) -> Option<Interest> {
        NonZeroU8::new(self.0.get() & !o.0.get()).map(Interest)
    }
    pub const fn is_readable(self) -> bool {
        self.0.get() & R != 0
    }
    pub const fn is_writable(self) -> bool {
        self.0.get() & W != 0
    }
    pub const fn is_priority(self) -> bool {
        self.0.get() & P != 0
    }
}
impl ops::BitOr for Interest {
    type Output = Self;
    fn bitor(self, o: Self) -> Self {
        self.add(o)
    }
}
impl ops::BitOrAssign for Interest {
    fn bitor_assign(&mut self, o: Self) {
        *self = self.add(o)
    }
}
