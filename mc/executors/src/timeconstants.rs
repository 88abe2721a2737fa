// Copyright 2017 Lars Kroll. See the LICENSE
// file at the top-level directory of this distribution.
//
// Licensed under the MIT license
// <LICENSE or http://opensource.org/licenses/MIT>.
// This file may not be copied, modified, or distributed
// except according to those terms.

#[allow(dead_code)]
pub const NS_PER_S: u32 = 1_000_000_000;
#[allow(dead_code)]
pub const US_PER_S: u32 = 1_000_000;
#[allow(dead_code)]
pub const MS_PER_S: u32 = 1_000;

#[allow(dead_code)]
pub const NS_PER_MS: u32 = 1_000_000;
#[allow(dead_code)]
pub const US_PER_MS: u32 = 1_000;
#[allow(dead_code)]
pub const NS_PER_US: u32 = 1_000;
