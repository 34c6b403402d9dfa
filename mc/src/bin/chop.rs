// The command line front end, as chop/src/main.rs has it, linked against /repo's working tree.
// MC_TZ_MAP ("name=Zone,...") stands for the names for timezones of an embedding program.
fn main() {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let names = std::env::var("MC_TZ_MAP").ok();
    let map = names.as_ref().map(|s| {
        s.split(',')
            .filter_map(|x| x.split_once('='))
            .map(|(n, z)| (n, z.parse().expect("a timezone")))
            .collect()
    });
    chopper::error::handle_drive_error(chopper::chopper_cli::chopper_cli(None, None, map));
}
