def mtime(p: Path) -> float:
    return p.stat().st_mtime


def determine_file(*argv) -> Path:
    glob: Optional[str] = None
    file: Optional[Path] = None
    if argv[1:]:
        if Path(argv[1]).exists():
            return Path(argv[1]).resolve().absolute()
        glob = argv[1]
    else:
        glob = '*.bmp'
    for f in sorted(Path.cwd().rglob(glob), key=mtime, reverse=True):
        return f
    print(f'No file specified and no {glob} found in {Path.cwd()!s}', file=stderr)
    exit(1)


def is_in_pytest():
    return any((k in modules for k in ('doctest', 'py.test', 'unittest')))


def program():
    file: Path = determine_file(*argv)
    print(file)
    is_windows: bool = platform == 'win32'
    is_android: bool
    try:
        is_android = check_output(['toolbox', 'getprop', 'ro.product.system.manufacturer'], encoding='UTF-8').strip() == 'Android'
    except (CalledProcessError, FileNotFoundError):
        is_android = False
    if is_windows:
        print(check_output(['cmd.exe', '/C', 'start', '', 'mspaint.exe', str(file)], shell=False))
    elif is_android:
        sd_prefixes = (('data', 'media'), ('storage', 'emulated'), ('mnt', 'shell', 'emulated'))
        file = Path(*('/', 'sdcard') + next((file.parts[1 + len(sl):] for sl in sd_prefixes if file.parts[1:1 + len(sl)] == sl))[1:]) if any((file.parts[1:1 + len(sl)] == sl for sl in sd_prefixes)) else file
        if not file.exists():
            print(f'File does not exist: {str(file)!r} from {str(Path.cwd())!r}', file=stderr)
        if not is_in_pytest():
            file.chmod(511)
            url: str = urlunparse(ParseResult(scheme='file', netloc='', path=file.as_posix(), params='', query='', fragment=''))
            print(check_output(['am', 'broadcast', '--user', '0', '-a', 'android.intent.action.MEDIA_SCANNER_SCAN_FILE', '-c', 'android.intent.category.DEFAULT', '-t', 'image/*', '--grant-read-uri-permission', '--grant-write-uri-permission', '--grant-persistable-uri-permission', '--grant-prefix-uri-permission', '-d', url]))
            print(check_output(['am', 'start', '--user', '0', '-a', 'android.intent.action.VIEW', '-c', 'android.intent.category.DEFAULT', '-t', 'image/*', '--grant-read-uri-permission', '--grant-write-uri-permission', '--grant-persistable-uri-permission', '--grant-prefix-uri-permission', '-d', url]))
    elif not is_in_pytest():
        print(check_output(['open' if platform == 'darwin' else 'xdg-open', file.absolute().as_posix()], shell=False))
