use crate::{Property, Tier};
mod c01_total;
mod c02_restricted;
mod c03_attrs_ignored;
mod c04_schemes;
mod c05_noimages;
mod c06_lite;
mod c07_sanitize;
mod c08_placeholders;
mod c09_history;
mod c10_code;
mod c11_raw;
mod c12_blocks;
mod c13_phrases;
mod c14_links;
mod c15_images;
mod c16_lists;
mod c17_tables;
mod c18_footnotes;
mod c19_notes;
mod c20_attributes;
mod c21_typography;
mod c22_text;
mod c23_lines;
mod c24_kinds;
mod c25_html;
mod c26_sizes;
mod c27_wellformed;
mod c28_locality;
mod c29_options;
mod c30_inline;
mod c31_inline_locality;

pub fn get(id: &str, tier: Tier) -> Option<Property> {
    Some(match id {
        "C01" => c01_total::property(tier),
        "C02" => c02_restricted::property(tier),
        "C03" => c03_attrs_ignored::property(tier),
        "C04" => c04_schemes::property(tier),
        "C05" => c05_noimages::property(tier),
        "C06" => c06_lite::property(tier),
        "C07" => c07_sanitize::property(tier),
        "C08" => c08_placeholders::property(tier),
        "C09" => c09_history::property(tier),
        "C10" => c10_code::property(tier),
        "C11" => c11_raw::property(tier),
        "C12" => c12_blocks::property(tier),
        "C13" => c13_phrases::property(tier),
        "C14" => c14_links::property(tier),
        "C15" => c15_images::property(tier),
        "C16" => c16_lists::property(tier),
        "C17" => c17_tables::property(tier),
        "C18" => c18_footnotes::property(tier),
        "C19" => c19_notes::property(tier),
        "C20" => c20_attributes::property(tier),
        "C21" => c21_typography::property(tier),
        "C22" => c22_text::property(tier),
        "C23" => c23_lines::property(tier),
        "C24" => c24_kinds::property(tier),
        "C25" => c25_html::property(tier),
        "C26" => c26_sizes::property(tier),
        "C27" => c27_wellformed::property(tier),
        "C28" => c28_locality::property(tier),
        "C29" => c29_options::property(tier),
        "C30" => c30_inline::property(tier),
        "C31" => c31_inline_locality::property(tier),
        _ => return None,
    })
}
