//! Prints the library's own lookup tables as source text of their entries.
//! Used only when the stand-in for the downloaded table does not fit the
//! layout of the entries any more (fields renamed, say): the layout is then
//! taken from here, the way the library's documentation says the downloaded
//! table was made.
use poker::evaluate::lookup_table::LookupTable;

fn main() {
    let t = LookupTable::new();
    for (k, v) in &t.flush_lookup {
        println!("F {} {:?}", k, v);
    }
    for (k, v) in &t.unsuited_lookup {
        println!("U {} {:?}", k, v);
    }
}
