"""Stand-in: the scripts' configuration file, with some base path."""
import vfs


class ConfigParser:
    def __init__(self):
        self.known = {}

    def read(self, filenames, encoding=None):
        names = filenames if isinstance(filenames, list) else [filenames]
        done = []
        for n in names:
            if vfs.norm(n).endswith('scripts/script_config.ini'):
                self.known = {'file_locations': {'base_path': 'root/data'}}
                done.append(n)
        return done

    def get(self, section, option):
        if section not in self.known or option not in self.known[section]:
            raise KeyError(section)
        return self.known[section][option]

    def sections(self):
        return list(self.known)

    def __getitem__(self, section):
        if section not in self.known:
            raise KeyError(section)
        return self.known[section]

    def __contains__(self, section):
        return section in self.known
